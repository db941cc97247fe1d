//! Stands in for `std` in the runtime crate under test: threads, locks, atomics and time are the explorer's.
#![no_std]
#[doc(hidden)]
pub extern crate std as real;
pub use real::*;

pub mod time {
    pub use real::time::*;
    use real::ops::{Add, AddAssign, Sub, SubAssign};
    /// Virtual instant.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(u64);
    impl Instant {
        pub fn now() -> Self {
            Instant(mc::now())
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(o.0))
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0).map(Duration::from_nanos)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.duration_since(o)
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now().duration_since(*self)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Self> {
            u64::try_from(d.as_nanos()).ok().and_then(|n| self.0.checked_add(n)).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Self> {
            u64::try_from(d.as_nanos()).ok().and_then(|n| self.0.checked_sub(n)).map(Instant)
        }
        #[doc(hidden)]
        pub fn ns(&self) -> u64 {
            self.0
        }
    }
    impl Add<Duration> for Instant {
        type Output = Self;
        fn add(self, d: Duration) -> Self {
            self.checked_add(d).expect("overflow when adding duration to instant")
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Self;
        fn sub(self, d: Duration) -> Self {
            self.checked_sub(d).expect("overflow when subtracting duration from instant")
        }
    }
    impl Sub for Instant {
        type Output = Duration;
        fn sub(self, o: Self) -> Duration {
            self.duration_since(o)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            *self = *self + d;
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            *self = *self - d;
        }
    }
}

pub mod env {
    pub use real::env::*;
    use real::ffi::{OsStr, OsString};
    use real::string::{String, ToString};
    /// Variables set for the calling process when it was started come first.
    pub fn var_os<K: AsRef<OsStr>>(k: K) -> Option<OsString> {
        match crate::process::own_env(k.as_ref()) {
            Some(v) => v,
            None => real::env::var_os(k),
        }
    }
    pub fn var<K: AsRef<OsStr>>(k: K) -> Result<String, VarError> {
        match var_os(k) {
            None => Err(VarError::NotPresent),
            Some(v) => v.into_string().map_err(VarError::NotUnicode),
        }
    }
    #[allow(unused)]
    fn _u() -> String {
        "".to_string()
    }
}

pub mod io {
    pub use real::io::*;
    use crate::process::Pipe;
    use real::sync::Arc;

    fn gone() -> Error {
        Error::from(ErrorKind::BrokenPipe)
    }
    /// Standard input of the calling (simulated) process.
    pub struct Stdin(Option<Arc<Pipe>>);
    pub struct StdinLock<'a>(Option<Arc<Pipe>>, real::marker::PhantomData<&'a ()>);
    pub struct Stdout(Option<Arc<Pipe>>);
    pub type StdoutLock<'a> = Stdout;
    pub fn stdin() -> Stdin {
        Stdin(crate::process::own_pipe(0))
    }
    pub fn stdout() -> Stdout {
        Stdout(crate::process::own_pipe(1))
    }
    impl Stdin {
        pub fn lock(&self) -> StdinLock<'static> {
            StdinLock(self.0.clone(), real::marker::PhantomData)
        }
    }
    impl Read for Stdin {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            self.0.as_ref().map_or(Ok(0), |p| p.read(b))
        }
    }
    impl Read for StdinLock<'_> {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            self.0.as_ref().map_or(Ok(0), |p| p.read(b))
        }
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout(self.0.clone())
        }
    }
    impl Write for Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            self.0.as_ref().map_or(Err(gone()), |p| p.write(b))
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
}

/// Child processes: groups of model threads running a registered program, connected by pipes.
pub mod process {
    pub use real::process::{abort, id, ExitCode, ExitStatus, Output, Termination};
    use mc::{Acc, W};
    use real::boxed::Box;
    use real::collections::{BTreeMap, HashMap, VecDeque};
    use real::ffi::{OsStr, OsString};
    use real::io::{Error, ErrorKind, Read, Result, Write};
    use real::os::unix::process::ExitStatusExt;
    use real::path::PathBuf;
    use real::string::String;
    use real::sync::{Arc, Mutex};
    use real::vec::Vec;

    /// Bytes a pipe holds before writers wait.
    pub const PIPE: usize = 65536;
    struct PipeSt {
        buf: VecDeque<u8>,
        reader: bool,
        writer: bool,
    }
    pub struct Pipe {
        id: u64,
        st: Mutex<PipeSt>,
    }
    impl Pipe {
        fn new() -> Arc<Self> {
            Arc::new(Pipe { id: mc::new_obj(), st: Mutex::new(PipeSt { buf: VecDeque::new(), reader: true, writer: true }) })
        }
        pub(crate) fn read(&self, b: &mut [u8]) -> Result<usize> {
            if mc::killed() {
                return Ok(0);
            }
            mc::block("pipe read", &[Acc(self.id, W)], &|| {
                let s = self.st.lock().unwrap();
                !s.buf.is_empty() || !s.writer
            });
            let mut s = self.st.lock().unwrap();
            let n = b.len().min(s.buf.len());
            for x in &mut b[..n] {
                *x = s.buf.pop_front().unwrap();
            }
            Ok(n)
        }
        pub(crate) fn write(&self, b: &[u8]) -> Result<usize> {
            if mc::killed() {
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
            mc::block("pipe write", &[Acc(self.id, W)], &|| {
                let s = self.st.lock().unwrap();
                s.buf.len() < PIPE || !s.reader
            });
            let mut s = self.st.lock().unwrap();
            if !s.reader {
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
            let n = b.len().min(PIPE - s.buf.len());
            s.buf.extend(&b[..n]);
            Ok(n)
        }
        fn close(&self, reader: bool) {
            if !mc::killed() {
                mc::point("pipe close", &[Acc(self.id, W)]);
            }
            let mut s = self.st.lock().unwrap();
            if reader {
                s.reader = false;
            } else {
                s.writer = false;
            }
        }
    }
    /// What the program was started with and did to itself.
    #[derive(Clone, Default)]
    pub struct Info {
        pub path: PathBuf,
        pub args: Vec<OsString>,
        pub env: BTreeMap<OsString, Option<OsString>>,
        pub memory_limit: Option<u64>,
        pub cpus: Option<usize>,
        pub group: bool,
        pipes: [Option<Arc<Pipe>>; 2],
    }
    static TABLE: Mutex<Option<HashMap<usize, Info>>> = Mutex::new(None);
    /// A process between fork and exec: system calls in `pre_exec` change this.
    static FORKING: Mutex<Option<Info>> = Mutex::new(None);
    type Program = fn() -> i32;
    static PROGRAMS: Mutex<Vec<(PathBuf, Program)>> = Mutex::new(Vec::new());
    static FAIL_SPAWNS: Mutex<bool> = Mutex::new(false);

    /// Makes `path` a program.
    pub fn register(path: PathBuf, f: Program) {
        PROGRAMS.lock().unwrap().push((path, f));
    }
    /// Forgets the processes of the previous execution.
    pub fn reset() {
        *TABLE.lock().unwrap() = Some(HashMap::new());
        *FORKING.lock().unwrap() = None;
        *FAIL_SPAWNS.lock().unwrap() = false;
        mc::on_process_end(ended);
    }
    /// Starting a process fails from now on.
    pub fn fail_spawns(f: bool) {
        *FAIL_SPAWNS.lock().unwrap() = f;
    }
    pub fn info(pid: usize) -> Option<Info> {
        TABLE.lock().unwrap().as_ref().and_then(|t| t.get(&pid).cloned())
    }
    /// The process being started, if the caller is in `pre_exec`.
    pub fn forking<T>(f: impl FnOnce(&mut Info) -> T) -> Option<T> {
        FORKING.lock().unwrap().as_mut().map(f)
    }
    fn ended(pid: usize) {
        if let Some(i) = info(pid) {
            // The kernel closes what it had open.
            if let Some(p) = &i.pipes[0] {
                p.st.lock().unwrap().reader = false;
            }
            if let Some(p) = &i.pipes[1] {
                p.st.lock().unwrap().writer = false;
            }
        }
    }
    pub(crate) fn own_pipe(i: usize) -> Option<Arc<Pipe>> {
        info(mc::process()).and_then(|x| x.pipes[i].clone())
    }
    pub(crate) fn own_env(k: &OsStr) -> Option<Option<OsString>> {
        let p = mc::process();
        if p == 0 {
            return None;
        }
        info(p).and_then(|x| x.env.get(k).cloned())
    }
    pub fn exit(code: i32) -> ! {
        if mc::process() != 0 {
            mc::exit_process(code)
        }
        real::process::exit(code)
    }

    pub struct Stdio(u8);
    impl real::fmt::Debug for Stdio {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("Stdio")
        }
    }
    impl Stdio {
        pub fn piped() -> Self {
            Stdio(1)
        }
        pub fn inherit() -> Self {
            Stdio(0)
        }
        pub fn null() -> Self {
            Stdio(2)
        }
    }
    pub struct Command {
        info: Info,
        stdin: u8,
        stdout: u8,
        pre: Vec<Box<dyn FnMut() -> Result<()> + Send + Sync>>,
    }
    impl real::fmt::Debug for Command {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("Command")
        }
    }
    impl Command {
        pub fn new<S: AsRef<OsStr>>(p: S) -> Self {
            Command { info: Info { path: PathBuf::from(p.as_ref()), ..Info::default() }, stdin: 0, stdout: 0, pre: Vec::new() }
        }
        pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Self {
            self.info.args.push(a.as_ref().into());
            self
        }
        pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, a: I) -> &mut Self {
            self.info.args.extend(a.into_iter().map(|x| x.as_ref().into()));
            self
        }
        pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Self {
            self.info.env.insert(k.as_ref().into(), Some(v.as_ref().into()));
            self
        }
        pub fn envs<I: IntoIterator<Item = (K, V)>, K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, v: I) -> &mut Self {
            v.into_iter().for_each(|(k, v)| {
                self.env(k, v);
            });
            self
        }
        pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Self {
            self.info.env.insert(k.as_ref().into(), None);
            self
        }
        pub fn current_dir<P: AsRef<real::path::Path>>(&mut self, _: P) -> &mut Self {
            self
        }
        pub fn process_group(&mut self, _: i32) -> &mut Self {
            self.info.group = true;
            self
        }
        pub fn stdin<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
            self.stdin = s.into().0;
            self
        }
        pub fn stdout<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
            self.stdout = s.into().0;
            self
        }
        pub fn stderr<T: Into<Stdio>>(&mut self, _: T) -> &mut Self {
            self
        }
        /// # Safety
        /// As in `std`.
        pub unsafe fn pre_exec<F: FnMut() -> Result<()> + Send + Sync + 'static>(&mut self, f: F) -> &mut Self {
            self.pre.push(Box::new(f));
            self
        }
        pub fn spawn(&mut self) -> Result<Child> {
            mc::point("spawn process", &[]);
            if *FAIL_SPAWNS.lock().unwrap() {
                return Err(Error::from_raw_os_error(11));
            }
            let prog = PROGRAMS.lock().unwrap().iter().find(|p| p.0 == self.info.path).map(|p| p.1);
            let Some(prog) = prog else { return Err(Error::from(ErrorKind::NotFound)) };
            *FORKING.lock().unwrap() = Some(self.info.clone());
            let r = self.pre.iter_mut().try_for_each(|f| f());
            let mut info = FORKING.lock().unwrap().take().unwrap();
            r?;
            let pipe = |m: u8| (m == 1).then(Pipe::new);
            info.pipes = [pipe(self.stdin), pipe(self.stdout)];
            let (i, o) = (info.pipes[0].clone(), info.pipes[1].clone());
            let group = info.group;
            // The process finds its own entry when it runs: nothing runs until the next scheduling point.
            let next = mc::processes();
            TABLE.lock().unwrap().get_or_insert_with(HashMap::new).insert(next, info);
            let pid = mc::spawn_process("helper", group, move || prog());
            assert_eq!(pid, next);
            Ok(Child { pid, stdin: i.map(ChildStdin), stdout: o.map(ChildStdout), stderr: None })
        }
    }
    pub struct ChildStdin(Arc<Pipe>);
    impl real::fmt::Debug for ChildStdin {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("ChildStdin")
        }
    }
    pub struct ChildStdout(Arc<Pipe>);
    impl real::fmt::Debug for ChildStdout {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("ChildStdout")
        }
    }
    pub struct ChildStderr(());
    impl real::fmt::Debug for ChildStderr {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("ChildStderr")
        }
    }
    impl Write for ChildStdin {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            self.0.write(b)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Drop for ChildStdin {
        fn drop(&mut self) {
            self.0.close(false);
        }
    }
    impl Read for ChildStdout {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            self.0.read(b)
        }
    }
    impl Drop for ChildStdout {
        fn drop(&mut self) {
            self.0.close(true);
        }
    }
    pub struct Child {
        pid: usize,
        pub stdin: Option<ChildStdin>,
        pub stdout: Option<ChildStdout>,
        pub stderr: Option<ChildStderr>,
    }
    /// Model process numbers are shown far above any real one.
    pub const BASE: i32 = 1 << 28;
    impl Child {
        pub fn id(&self) -> u32 {
            self.pid as u32 + BASE as u32
        }
        pub fn kill(&mut self) -> Result<()> {
            mc::kill_process(self.pid, 9);
            Ok(())
        }
        pub fn try_wait(&mut self) -> Result<Option<ExitStatus>> {
            Ok(mc::status(self.pid).map(ExitStatus::from_raw))
        }
        pub fn wait(&mut self) -> Result<ExitStatus> {
            self.stdin.take();
            mc::wait_process(self.pid, None);
            Ok(ExitStatus::from_raw(mc::status_now(self.pid).unwrap()))
        }
        pub fn wait_for(&mut self, d: real::time::Duration) -> Result<Option<ExitStatus>> {
            Ok(if mc::wait_process(self.pid, Some(d.as_nanos() as u64)) {
                mc::status_now(self.pid).map(ExitStatus::from_raw)
            } else {
                None
            })
        }
    }
    impl real::fmt::Debug for Child {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("Child")
        }
    }
    #[allow(unused)]
    type _S = String;
}

pub mod os {
    pub use real::os::*;
    pub mod unix {
        pub use real::os::unix::*;
        pub mod process {
            pub use real::os::unix::process::ExitStatusExt;
            /// The methods are inherent here.
            pub trait CommandExt {}
            impl CommandExt for crate::process::Command {}
        }
    }
}

pub mod thread {
    use crate::sync::PlainMutex;
    use real::boxed::Box;
    use real::string::String;
    use real::sync::Arc;
    pub use real::thread::{available_parallelism, current, panicking, AccessError, LocalKey, Result, Thread, ThreadId};
    use real::time::Duration;

    pub struct JoinHandle<T> {
        h: mc::Handle,
        v: Arc<PlainMutex<Option<T>>>,
    }
    impl<T> real::fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("JoinHandle")
        }
    }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            self.h.join();
            match self.v.lock().unwrap().take() {
                Some(v) => Ok(v),
                None => Err(Box::new("thread panicked")),
            }
        }
        pub fn is_finished(&self) -> bool {
            self.h.is_finished()
        }
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
        Builder::new().spawn(f).unwrap()
    }
    pub fn sleep(d: Duration) {
        if mc::controlled() {
            mc::sleep(d.as_nanos() as u64)
        }
    }
    pub fn yield_now() {}
    #[derive(Debug, Default)]
    pub struct Builder {
        name: Option<String>,
    }
    impl Builder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn name(mut self, n: String) -> Self {
            self.name = Some(n);
            self
        }
        pub fn stack_size(self, _: usize) -> Self {
            self
        }
        pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(
            self,
            f: F,
        ) -> real::io::Result<JoinHandle<T>> {
            let v = Arc::new(PlainMutex::new(None));
            let v2 = v.clone();
            let h = mc::spawn(self.name.as_deref().unwrap_or("thread"), move || {
                let r = f();
                *v2.lock().unwrap() = Some(r);
            });
            Ok(JoinHandle { h, v })
        }
    }
}

pub mod sync {
    pub use real::sync::Mutex as PlainMutex;
    pub use real::sync::{
        mpsc, Arc, LazyLock, LockResult, Once, PoisonError, TryLockError, TryLockResult, Weak,
    };
    use mc::{Acc, Acq, Mode, Rel, W};
    use real::cell::UnsafeCell;
    use real::ops::{Deref, DerefMut};
    use real::sync::atomic::{AtomicBool as RB, AtomicU64 as R64, AtomicUsize as RU, Ordering::SeqCst};
    use real::time::Duration;

    struct Id(R64);
    impl Id {
        const fn new() -> Self {
            Id(R64::new(0))
        }
        fn get(&self) -> u64 {
            let v = self.0.load(SeqCst);
            if v != 0 {
                return v;
            }
            let n = mc::new_obj();
            self.0.store(n, SeqCst);
            n
        }
    }

    pub struct Mutex<T: ?Sized> {
        id: Id,
        held: RB,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { id: Id::new(), held: RB::new(false), v: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            mc::block("Mutex::lock", &[Acc(self.id.get(), Acq)], &|| !self.held.load(SeqCst));
            while self.held.swap(true, SeqCst) && !mc::killed() {
                real::thread::yield_now();
            }
            Ok(MutexGuard(self))
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            mc::point("Mutex::try_lock", &[Acc(self.id.get(), W)]);
            if self.held.swap(true, SeqCst) {
                Err(TryLockError::WouldBlock)
            } else {
                Ok(MutexGuard(self))
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
        pub fn clear_poison(&self) {}
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: ?Sized> real::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("Mutex")
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized + real::fmt::Debug> real::fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            mc::point("Mutex::unlock", &[Acc(self.0.id.get(), Rel)]);
            self.0.held.store(false, SeqCst);
        }
    }

    pub struct Condvar {
        id: Id,
        /// Sequence of notifications; waiters take tickets.
        waiting: RU,
        permits: RU,
    }
    impl real::fmt::Debug for Condvar {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("Condvar")
        }
    }
    impl Default for Condvar {
        fn default() -> Self {
            Self::new()
        }
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { id: Id::new(), waiting: RU::new(0), permits: RU::new(0) }
        }
        fn release<T: ?Sized>(&self, m: &Mutex<T>) {
            // Atomically unlock and start waiting.
            mc::point("Condvar::wait", &[Acc(self.id.get(), W), Acc(m.id.get(), Rel)]);
            self.waiting.fetch_add(1, SeqCst);
            m.held.store(false, SeqCst);
        }
        pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = g.0;
            real::mem::forget(g);
            self.release(m);
            mc::block("Condvar::woken", &[Acc(self.id.get(), W)], &|| self.permits.load(SeqCst) > 0);
            self.permits.fetch_sub(1, SeqCst);
            m.lock()
        }
        pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut f: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn wait_timeout<'a, T: ?Sized>(
            &self,
            g: MutexGuard<'a, T>,
            d: Duration,
        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let m = g.0;
            real::mem::forget(g);
            self.release(m);
            let dl = mc::now() + d.as_nanos() as u64;
            let a = mc::op(mc::Op {
                label: "Condvar::woken",
                accs: real::vec![Acc(self.id.get(), W)],
                enabled: &|| (self.permits.load(SeqCst) > 0) as u32,
                deadline: Some(dl),
                settle: None,
            });
            if a == mc::TIMEOUT {
                self.waiting.fetch_sub(1, SeqCst);
            } else {
                self.permits.fetch_sub(1, SeqCst);
            }
            let g = match m.lock() { Ok(g) => g, Err(e) => e.into_inner() };
            Ok((g, WaitTimeoutResult(a == mc::TIMEOUT)))
        }
        pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            d: Duration,
            mut f: F,
        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let end = mc::now() + d.as_nanos() as u64;
            loop {
                if !f(&mut *g) {
                    return Ok((g, WaitTimeoutResult(false)));
                }
                let left = end.saturating_sub(mc::now());
                if left == 0 {
                    return Ok((g, WaitTimeoutResult(true)));
                }
                g = match self.wait_timeout(g, Duration::from_nanos(left)) {
                    Ok(x) => x.0,
                    Err(e) => e.into_inner().0,
                };
            }
        }
        pub fn notify_one(&self) {
            mc::point("Condvar::notify_one", &[Acc(self.id.get(), W)]);
            if self.waiting.load(SeqCst) > 0 {
                self.waiting.fetch_sub(1, SeqCst);
                self.permits.fetch_add(1, SeqCst);
            }
        }
        pub fn notify_all(&self) {
            mc::point("Condvar::notify_all", &[Acc(self.id.get(), W)]);
            let w = self.waiting.swap(0, SeqCst);
            self.permits.fetch_add(w, SeqCst);
        }
    }

    /// A cell written once; a thread that finds it being initialised waits.
    pub struct OnceLock<T> {
        id: Id,
        busy: RB,
        v: real::sync::OnceLock<T>,
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { id: Id::new(), busy: RB::new(false), v: real::sync::OnceLock::new() }
        }
        pub fn get(&self) -> Option<&T> {
            mc::point("OnceLock::get", &[Acc(self.id.get(), Mode::R)]);
            self.v.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            mc::block("OnceLock::set", &[Acc(self.id.get(), W)], &|| !self.busy.load(SeqCst));
            self.v.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            mc::block("OnceLock::get_or_init", &[Acc(self.id.get(), Acq)], &|| !self.busy.load(SeqCst));
            if let Some(v) = self.v.get() {
                return v;
            }
            struct Done<'a>(&'a RB, u64);
            impl Drop for Done<'_> {
                fn drop(&mut self) {
                    mc::point("OnceLock::initialised", &[Acc(self.1, Rel)]);
                    self.0.store(false, SeqCst);
                }
            }
            self.busy.store(true, SeqCst);
            let _d = Done(&self.busy, self.id.get());
            let t = f();
            let _ = self.v.set(t);
            self.v.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.v.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: real::fmt::Debug> real::fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            self.v.fmt(f)
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(t: T) -> Self {
            let c = Self::new();
            let _ = c.v.set(t);
            c
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }

    /// Reader-writer lock.
    pub struct RwLock<T: ?Sized> {
        id: Id,
        /// usize::MAX: written; otherwise number of readers.
        st: RU,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { id: Id::new(), st: RU::new(0), v: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            mc::block("RwLock::read", &[Acc(self.id.get(), Acq)], &|| self.st.load(SeqCst) != usize::MAX);
            self.st.fetch_add(1, SeqCst);
            Ok(RwLockReadGuard(self))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            mc::block("RwLock::write", &[Acc(self.id.get(), Acq)], &|| self.st.load(SeqCst) == 0);
            self.st.store(usize::MAX, SeqCst);
            Ok(RwLockWriteGuard(self))
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
        pub fn clear_poison(&self) {}
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            mc::point("RwLock::try_read", &[Acc(self.id.get(), W)]);
            if self.st.load(SeqCst) == usize::MAX {
                return Err(TryLockError::WouldBlock);
            }
            self.st.fetch_add(1, SeqCst);
            Ok(RwLockReadGuard(self))
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            mc::point("RwLock::try_write", &[Acc(self.id.get(), W)]);
            if self.st.load(SeqCst) != 0 {
                return Err(TryLockError::WouldBlock);
            }
            self.st.store(usize::MAX, SeqCst);
            Ok(RwLockWriteGuard(self))
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: ?Sized> real::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
            f.write_str("RwLock")
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            mc::point("RwLock::unread", &[Acc(self.0.id.get(), Rel)]);
            self.0.st.fetch_sub(1, SeqCst);
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            mc::point("RwLock::unwrite", &[Acc(self.0.id.get(), Rel)]);
            self.0.st.store(0, SeqCst);
        }
    }

    pub mod atomic {
        use super::Id;
        use mc::{Acc, R, W};
        pub use real::sync::atomic::{fence, compiler_fence, Ordering};
        use real::sync::atomic as ra;
        use real::sync::atomic::Ordering::SeqCst;

        macro_rules! common {
            ($N:ident, $T:ty, $track:expr) => {
                pub struct $N {
                    id: Id,
                    v: ra::$N,
                }
                impl $N {
                    pub const fn new(v: $T) -> Self {
                        $N { id: Id::new(), v: ra::$N::new(v) }
                    }
                    #[inline]
                    fn p(&self, l: &'static str, m: super::Mode) {
                        if $track && mc::controlled() {
                            mc::point(l, &[Acc(self.id.get(), m)]);
                        }
                    }
                    pub fn load(&self, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::load"), R);
                        self.v.load(SeqCst)
                    }
                    pub fn store(&self, v: $T, _: Ordering) {
                        self.p(concat!(stringify!($N), "::store"), W);
                        self.v.store(v, SeqCst)
                    }
                    pub fn swap(&self, v: $T, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::swap"), W);
                        self.v.swap(v, SeqCst)
                    }
                    pub fn compare_exchange(&self, a: $T, b: $T, _: Ordering, _: Ordering) -> Result<$T, $T> {
                        self.p(concat!(stringify!($N), "::cas"), W);
                        self.v.compare_exchange(a, b, SeqCst, SeqCst)
                    }
                    pub fn compare_exchange_weak(&self, a: $T, b: $T, _: Ordering, _: Ordering) -> Result<$T, $T> {
                        self.p(concat!(stringify!($N), "::cas"), W);
                        self.v.compare_exchange(a, b, SeqCst, SeqCst)
                    }
                    pub fn fetch_update<F: FnMut($T) -> Option<$T>>(
                        &self,
                        _: Ordering,
                        _: Ordering,
                        mut f: F,
                    ) -> Result<$T, $T> {
                        // load, then compare-and-swap until it sticks
                        self.p(concat!(stringify!($N), "::load"), R);
                        let mut cur = self.v.load(SeqCst);
                        loop {
                            let Some(n) = f(cur) else { return Err(cur) };
                            self.p(concat!(stringify!($N), "::cas"), W);
                            match self.v.compare_exchange(cur, n, SeqCst, SeqCst) {
                                Ok(x) => return Ok(x),
                                Err(x) => cur = x,
                            }
                        }
                    }
                    pub fn get_mut(&mut self) -> &mut $T {
                        self.v.get_mut()
                    }
                    pub fn into_inner(self) -> $T {
                        self.v.into_inner()
                    }
                }
                impl real::fmt::Debug for $N {
                    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
                        self.v.fmt(f)
                    }
                }
                impl Default for $N {
                    fn default() -> Self {
                        Self::new(Default::default())
                    }
                }
                impl From<$T> for $N {
                    fn from(v: $T) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! int {
            ($N:ident, $T:ty, $track:expr) => {
                common!($N, $T, $track);
                impl $N {
                    pub fn fetch_add(&self, v: $T, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::fetch_add"), W);
                        self.v.fetch_add(v, SeqCst)
                    }
                    pub fn fetch_sub(&self, v: $T, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::fetch_sub"), W);
                        self.v.fetch_sub(v, SeqCst)
                    }
                    pub fn fetch_max(&self, v: $T, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::fetch_max"), W);
                        self.v.fetch_max(v, SeqCst)
                    }
                    pub fn fetch_min(&self, v: $T, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::fetch_min"), W);
                        self.v.fetch_min(v, SeqCst)
                    }
                    pub fn fetch_or(&self, v: $T, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::fetch_or"), W);
                        self.v.fetch_or(v, SeqCst)
                    }
                    pub fn fetch_and(&self, v: $T, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::fetch_and"), W);
                        self.v.fetch_and(v, SeqCst)
                    }
                    pub fn fetch_xor(&self, v: $T, _: Ordering) -> $T {
                        self.p(concat!(stringify!($N), "::fetch_xor"), W);
                        self.v.fetch_xor(v, SeqCst)
                    }
                }
            };
        }
        // 64-bit counters are the runtime's statistics: read only at barriers, so they need no scheduling point.
        int!(AtomicU64, u64, false);
        int!(AtomicI64, i64, true);
        int!(AtomicUsize, usize, true);
        int!(AtomicIsize, isize, true);
        int!(AtomicU32, u32, true);
        int!(AtomicI32, i32, true);
        int!(AtomicU16, u16, true);
        int!(AtomicU8, u8, true);
        common!(AtomicBool, bool, true);
        impl AtomicBool {
            pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
                self.p("AtomicBool::fetch_or", W);
                self.v.fetch_or(v, SeqCst)
            }
            pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
                self.p("AtomicBool::fetch_and", W);
                self.v.fetch_and(v, SeqCst)
            }
            pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
                self.p("AtomicBool::fetch_xor", W);
                self.v.fetch_xor(v, SeqCst)
            }
            pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool {
                self.p("AtomicBool::fetch_nand", W);
                self.v.fetch_nand(v, SeqCst)
            }
            pub fn fetch_not(&self, _: Ordering) -> bool {
                self.p("AtomicBool::fetch_not", W);
                self.v.fetch_not(SeqCst)
            }
        }
        pub use real::sync::atomic::AtomicPtr;
    }
    #[allow(unused)]
    const _: Mode = Mode::R;
}
