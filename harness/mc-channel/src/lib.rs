//! crossbeam-channel over the explorer.
use mc::{Acc, Op, R, W};
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Inner<T> {
    q: VecDeque<T>,
    senders: usize,
    receivers: usize,
}
struct Chan<T> {
    id: u64,
    cap: Option<usize>,
    /// Deadline channels (`after`): becomes ready at this virtual time.
    st: Mutex<Inner<T>>,
}
impl<T> Chan<T> {
    fn full(&self, i: &Inner<T>) -> bool {
        self.cap.is_some_and(|c| i.q.len() >= c.max(1))
    }
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    make(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}
pub fn never<T>() -> Receiver<T> {
    let (s, r) = make(None);
    std::mem::forget(s);
    r
}
fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        id: mc::new_obj(),
        cap,
        st: Mutex::new(Inner { q: VecDeque::new(), senders: 1, receivers: 1 }),
    });
    (Sender(c.clone()), Receiver(c))
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
    Timeout(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
macro_rules! err {
    ($($t:ident $(<$g:ident>)? : $s:expr),*) => {$(
        impl$(<$g>)? fmt::Display for $t$(<$g>)? { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($s) } }
    )*};
}
err!(SendError<T>: "sending on a disconnected channel", TrySendError<T>: "sending on a full or disconnected channel",
     SendTimeoutError<T>: "timed out or disconnected", RecvError: "receiving on an empty and disconnected channel",
     TryRecvError: "receiving on an empty or disconnected channel", RecvTimeoutError: "timed out or disconnected");
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_full() { "Full(..)" } else { "Disconnected(..)" })
    }
}
impl<T> fmt::Debug for SendTimeoutError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendTimeoutError(..)")
    }
}
impl<T> std::error::Error for SendError<T> {}
impl<T> std::error::Error for TrySendError<T> {}
impl<T> std::error::Error for SendTimeoutError<T> {}
impl std::error::Error for RecvError {}
impl std::error::Error for TryRecvError {}
impl std::error::Error for RecvTimeoutError {}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            Self::Full(t) | Self::Disconnected(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, Self::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, Self::Disconnected(_))
    }
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        matches!(self, Self::Empty)
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, Self::Disconnected)
    }
}
impl RecvTimeoutError {
    pub fn is_timeout(&self) -> bool {
        matches!(self, Self::Timeout)
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, Self::Disconnected)
    }
}

impl<T> Sender<T> {
    fn push(&self, t: T) -> Result<(), SendError<T>> {
        let mut i = self.0.st.lock().unwrap();
        if i.receivers == 0 {
            return Err(SendError(t));
        }
        i.q.push_back(t);
        Ok(())
    }
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        mc::block("send", &[Acc(self.0.id, W)], &|| {
            let i = self.0.st.lock().unwrap();
            i.receivers == 0 || !self.0.full(&i)
        });
        self.push(t)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        mc::point("try_send", &[Acc(self.0.id, W)]);
        {
            let i = self.0.st.lock().unwrap();
            if i.receivers > 0 && self.0.full(&i) {
                return Err(TrySendError::Full(t));
            }
        }
        self.push(t).map_err(|e| TrySendError::Disconnected(e.0))
    }
    pub fn send_timeout(&self, t: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        let dl = deadline(d);
        let a = mc::op(Op {
            label: "send_timeout",
            accs: vec![Acc(self.0.id, W)],
            enabled: &|| {
                let i = self.0.st.lock().unwrap();
                (i.receivers == 0 || !self.0.full(&i)) as u32
            },
            deadline: Some(dl),
            settle: None,
        });
        if a == mc::TIMEOUT {
            return Err(SendTimeoutError::Timeout(t));
        }
        self.push(t).map_err(|e| SendTimeoutError::Disconnected(e.0))
    }
    pub fn len(&self) -> usize {
        mc::point("len", &[Acc(self.0.id, R)]);
        self.0.st.lock().unwrap().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        mc::point("is_full", &[Acc(self.0.id, R)]);
        let i = self.0.st.lock().unwrap();
        self.0.full(&i)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
    pub fn same_channel(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
fn deadline(d: Duration) -> u64 {
    mc::now().saturating_add(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 2))
}

impl<T> Receiver<T> {
    fn pop(&self) -> Result<T, TryRecvError> {
        let mut i = self.0.st.lock().unwrap();
        match i.q.pop_front() {
            Some(t) => Ok(t),
            None if i.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    fn ready(&self) -> bool {
        let i = self.0.st.lock().unwrap();
        !i.q.is_empty() || i.senders == 0
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        mc::block("recv", &[Acc(self.0.id, W)], &|| self.ready());
        self.pop().map_err(|_| RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        mc::point("try_recv", &[Acc(self.0.id, W)]);
        self.pop()
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let dl = deadline(d);
        let a = mc::op(Op {
            label: "recv_timeout",
            accs: vec![Acc(self.0.id, W)],
            enabled: &|| self.ready() as u32,
            deadline: Some(dl),
            settle: None,
        });
        if a == mc::TIMEOUT {
            return Err(RecvTimeoutError::Timeout);
        }
        self.pop().map_err(|e| match e {
            TryRecvError::Empty => RecvTimeoutError::Timeout,
            TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
        })
    }
    pub fn len(&self) -> usize {
        mc::point("len", &[Acc(self.0.id, R)]);
        self.0.st.lock().unwrap().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        mc::point("is_full", &[Acc(self.0.id, R)]);
        let i = self.0.st.lock().unwrap();
        self.0.full(&i)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.st.lock().unwrap().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.st.lock().unwrap().receivers += 1;
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let (last, heard) = {
            let i = self.0.st.lock().unwrap();
            (i.senders == 1, i.receivers > 0)
        };
        if last && heard {
            mc::point("drop sender", &[Acc(self.0.id, W)]);
        }
        self.0.st.lock().unwrap().senders -= 1;
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let (last, heard) = {
            let i = self.0.st.lock().unwrap();
            (i.receivers == 1, i.senders > 0)
        };
        if last && heard {
            mc::point("drop receiver", &[Acc(self.0.id, W)]);
        }
        let dead = {
            let mut i = self.0.st.lock().unwrap();
            i.receivers -= 1;
            if i.receivers == 0 {
                std::mem::take(&mut i.q)
            } else {
                VecDeque::new()
            }
        };
        drop(dead);
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}

#[doc(hidden)]
pub trait Arm {
    fn id(&self) -> u64;
    fn is_ready(&self) -> bool;
}
impl<T> Arm for Receiver<T> {
    fn id(&self) -> u64 {
        self.0.id
    }
    fn is_ready(&self) -> bool {
        self.ready()
    }
}
impl<A: Arm + ?Sized> Arm for &A {
    fn id(&self) -> u64 {
        (**self).id()
    }
    fn is_ready(&self) -> bool {
        (**self).is_ready()
    }
}
#[doc(hidden)]
pub enum Default_ {
    None,
    Now,
    After(Duration),
}
/// Chosen arm, or `arms.len()` for the default.
#[doc(hidden)]
pub fn select_arms(arms: &[&dyn Arm], d: Default_) -> usize {
    let now = matches!(d, Default_::Now);
    let dl = match d {
        Default_::After(d) => Some(deadline(d)),
        _ => None,
    };
    let n = arms.len() as u32;
    let a = mc::op(Op {
        label: "select",
        accs: arms.iter().map(|a| Acc(a.id(), W)).collect(),
        enabled: &|| {
            let mut m = 0;
            for (i, a) in arms.iter().enumerate() {
                if a.is_ready() {
                    m |= 1 << i;
                }
            }
            if m == 0 && now {
                m = 1 << n;
            }
            m
        },
        deadline: dl,
        settle: None,
    });
    if a == mc::TIMEOUT {
        arms.len()
    } else {
        a as usize
    }
}
#[doc(hidden)]
pub fn take_arm<T>(r: &Receiver<T>) -> Result<T, RecvError> {
    r.pop().map_err(|_| RecvError)
}

/// `select!` with `recv` arms and an optional default.
#[macro_export]
macro_rules! select {
    // normalise arms: ( [arms] default rest )
    (@p [$($a:tt)*] [$($d:tt)*] ) => { $crate::select!(@run [$($a)*] [$($d)*]) };
    (@p [$($a:tt)*] [$($d:tt)*] recv($r:expr) -> $p:pat => $b:block , $($rest:tt)*) => { $crate::select!(@p [$($a)* { ($r) ($p) ($b) }] [$($d)*] $($rest)*) };
    (@p [$($a:tt)*] [$($d:tt)*] recv($r:expr) -> $p:pat => $b:block $($rest:tt)*) => { $crate::select!(@p [$($a)* { ($r) ($p) ($b) }] [$($d)*] $($rest)*) };
    (@p [$($a:tt)*] [$($d:tt)*] recv($r:expr) -> $p:pat => $b:expr , $($rest:tt)*) => { $crate::select!(@p [$($a)* { ($r) ($p) ($b) }] [$($d)*] $($rest)*) };
    (@p [$($a:tt)*] [$($d:tt)*] recv($r:expr) -> $p:pat => $b:expr) => { $crate::select!(@p [$($a)* { ($r) ($p) ($b) }] [$($d)*]) };
    (@p [$($a:tt)*] [$($d:tt)*] default($t:expr) => $b:block , $($rest:tt)*) => { $crate::select!(@p [$($a)*] [($crate::Default_::After($t)) ($b)] $($rest)*) };
    (@p [$($a:tt)*] [$($d:tt)*] default($t:expr) => $b:block $($rest:tt)*) => { $crate::select!(@p [$($a)*] [($crate::Default_::After($t)) ($b)] $($rest)*) };
    (@p [$($a:tt)*] [$($d:tt)*] default($t:expr) => $b:expr $(,)?) => { $crate::select!(@p [$($a)*] [($crate::Default_::After($t)) ($b)]) };
    (@p [$($a:tt)*] [$($d:tt)*] default => $b:block , $($rest:tt)*) => { $crate::select!(@p [$($a)*] [($crate::Default_::Now) ($b)] $($rest)*) };
    (@p [$($a:tt)*] [$($d:tt)*] default => $b:block $($rest:tt)*) => { $crate::select!(@p [$($a)*] [($crate::Default_::Now) ($b)] $($rest)*) };
    (@p [$($a:tt)*] [$($d:tt)*] default => $b:expr $(,)?) => { $crate::select!(@p [$($a)*] [($crate::Default_::Now) ($b)]) };
    (@run [{ ($r0:expr) ($p0:pat) ($b0:expr) }] [$($d:tt)*]) => {
        match $crate::select_arms(&[&$r0 as &dyn $crate::Arm], $crate::select!(@dk $($d)*)) {
            0 => { let $p0 = $crate::take_arm(&$r0); $b0 }
            _ => $crate::select!(@db $($d)*),
        }
    };
    (@run [{ ($r0:expr) ($p0:pat) ($b0:expr) } { ($r1:expr) ($p1:pat) ($b1:expr) }] [$($d:tt)*]) => {
        match $crate::select_arms(&[&$r0 as &dyn $crate::Arm, &$r1 as &dyn $crate::Arm], $crate::select!(@dk $($d)*)) {
            0 => { let $p0 = $crate::take_arm(&$r0); $b0 }
            1 => { let $p1 = $crate::take_arm(&$r1); $b1 }
            _ => $crate::select!(@db $($d)*),
        }
    };
    (@run [{ ($r0:expr) ($p0:pat) ($b0:expr) } { ($r1:expr) ($p1:pat) ($b1:expr) } { ($r2:expr) ($p2:pat) ($b2:expr) }] [$($d:tt)*]) => {
        match $crate::select_arms(&[&$r0 as &dyn $crate::Arm, &$r1 as &dyn $crate::Arm, &$r2 as &dyn $crate::Arm], $crate::select!(@dk $($d)*)) {
            0 => { let $p0 = $crate::take_arm(&$r0); $b0 }
            1 => { let $p1 = $crate::take_arm(&$r1); $b1 }
            2 => { let $p2 = $crate::take_arm(&$r2); $b2 }
            _ => $crate::select!(@db $($d)*),
        }
    };
    (@dk) => { $crate::Default_::None };
    (@dk ($k:expr) ($b:expr)) => { $k };
    (@db) => { unreachable!() };
    (@db ($k:expr) ($b:expr)) => { $b };
    ($($t:tt)*) => { $crate::select!(@p [] [] $($t)*) };
}
/// Fair selection is one of the orders explored.
#[macro_export]
macro_rules! select_biased { ($($t:tt)*) => { $crate::select!($($t)*) }; }
