//! DashMap over the explorer: one shard, whose lock is held exactly as long as the real guards hold it.
use mc::{Acc, Op, Acq, Rel, W};
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::hash_map::RandomState;
use std::fmt;
use std::hash::{BuildHasher, Hash};
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct DashMap<K, V, S = RandomState> {
    id: u64,
    /// usize::MAX: write-locked, otherwise number of read guards.
    st: AtomicUsize,
    v: UnsafeCell<Vec<(K, V)>>,
    hasher: S,
}
unsafe impl<K: Send, V: Send, S: Send> Send for DashMap<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S: Sync> Sync for DashMap<K, V, S> {}

impl<K: Eq + Hash, V> DashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<K: Eq + Hash, V, S: Default + BuildHasher + Clone> Default for DashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}
impl<K, V, S> fmt::Debug for DashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("DashMap { .. }")
    }
}
struct ReadLock<'a>(u64, &'a AtomicUsize);
impl Drop for ReadLock<'_> {
    fn drop(&mut self) {
        mc::point("map unlock", &[Acc(self.0, Rel)]);
        self.1.fetch_sub(1, SeqCst);
    }
}
struct WriteLock<'a>(u64, &'a AtomicUsize);
impl Drop for WriteLock<'_> {
    fn drop(&mut self) {
        mc::point("map unlock", &[Acc(self.0, Rel)]);
        self.1.store(0, SeqCst);
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> DashMap<K, V, S> {
    pub fn with_hasher(hasher: S) -> Self {
        DashMap { id: mc::new_obj(), st: AtomicUsize::new(0), v: UnsafeCell::new(vec![]), hasher }
    }
    pub fn with_capacity_and_hasher(_: usize, hasher: S) -> Self {
        Self::with_hasher(hasher)
    }
    pub fn hasher(&self) -> &S {
        &self.hasher
    }
    #[allow(clippy::mut_from_ref)]
    fn raw(&self) -> &mut Vec<(K, V)> {
        unsafe { &mut *self.v.get() }
    }
    /// An operation that takes and releases the write lock in one step.
    fn write_step(&self, l: &'static str) {
        mc::block(l, &[Acc(self.id, W)], &|| self.st.load(SeqCst) == 0);
    }
    fn read_step(&self, l: &'static str) {
        mc::block(l, &[Acc(self.id, mc::R)], &|| self.st.load(SeqCst) != usize::MAX);
    }
    fn read_lock(&self, l: &'static str) -> ReadLock<'_> {
        mc::block(l, &[Acc(self.id, Acq)], &|| self.st.load(SeqCst) != usize::MAX);
        self.st.fetch_add(1, SeqCst);
        ReadLock(self.id, &self.st)
    }
    fn write_lock(&self, l: &'static str) -> WriteLock<'_> {
        mc::block(l, &[Acc(self.id, Acq)], &|| self.st.load(SeqCst) == 0);
        self.st.store(usize::MAX, SeqCst);
        WriteLock(self.id, &self.st)
    }
    fn pos<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.raw().iter().position(|(x, _)| x.borrow() == k)
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        self.write_step("map insert");
        match self.pos(&k) {
            Some(i) => Some(std::mem::replace(&mut self.raw()[i].1, v)),
            None => {
                self.raw().push((k, v));
                None
            }
        }
    }
    pub fn remove<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.write_step("map remove");
        self.pos(k).map(|i| self.raw().remove(i))
    }
    pub fn remove_if<Q: Eq + Hash + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.write_step("map remove_if");
        let i = self.pos(k)?;
        let (a, b) = &self.raw()[i];
        f(a, b).then(|| self.raw().remove(i))
    }
    pub fn contains_key<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.read_step("map contains");
        self.pos(k).is_some()
    }
    pub fn len(&self) -> usize {
        self.read_step("map len");
        self.raw().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) {
        self.write_step("map clear");
        let old = std::mem::take(self.raw());
        drop(old);
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        self.write_step("map retain");
        self.raw().retain_mut(|(k, v)| f(k, v));
    }
    pub fn get<'a, Q: Eq + Hash + ?Sized>(&'a self, k: &Q) -> Option<mapref::one::Ref<'a, K, V>>
    where
        K: Borrow<Q>,
    {
        let l = self.read_lock("map get");
        match self.pos(k) {
            Some(i) => Some(mapref::one::Ref { kv: &self.raw()[i], _l: l }),
            None => {
                // Nothing found: the lock is gone in the same step.
                std::mem::forget(l);
                self.st.fetch_sub(1, SeqCst);
                None
            }
        }
    }
    pub fn get_mut<'a, Q: Eq + Hash + ?Sized>(&'a self, k: &Q) -> Option<mapref::one::RefMut<'a, K, V>>
    where
        K: Borrow<Q>,
    {
        let l = self.write_lock("map get_mut");
        match self.pos(k) {
            Some(i) => Some(mapref::one::RefMut { kv: &mut self.raw()[i], _l: l }),
            None => {
                std::mem::forget(l);
                self.st.store(0, SeqCst);
                None
            }
        }
    }
    pub fn try_get<'a, Q: Eq + Hash + ?Sized>(&'a self, k: &Q) -> try_result::TryResult<mapref::one::Ref<'a, K, V>>
    where
        K: Borrow<Q>,
    {
        // Alternative 1: a writer is inside this shard right now (writes are single steps here, so this is
        // the explorer's way of letting a reader meet one).
        let a = mc::op(Op {
            label: "map try_get",
            accs: vec![Acc(self.id, Acq)],
            enabled: &|| {
                if self.st.load(SeqCst) == usize::MAX {
                    2
                } else {
                    1
                }
            },
            deadline: None,
            settle: None,
        });
        if a == 1 {
            return try_result::TryResult::Locked;
        }
        match self.pos(k) {
            Some(i) => {
                self.st.fetch_add(1, SeqCst);
                try_result::TryResult::Present(mapref::one::Ref {
                    kv: &self.raw()[i],
                    _l: ReadLock(self.id, &self.st),
                })
            }
            None => try_result::TryResult::Absent,
        }
    }
    pub fn try_get_mut<'a, Q: Eq + Hash + ?Sized>(&'a self, k: &Q) -> try_result::TryResult<mapref::one::RefMut<'a, K, V>>
    where
        K: Borrow<Q>,
    {
        mc::point("map try_get_mut", &[Acc(self.id, Acq)]);
        if self.st.load(SeqCst) != 0 {
            return try_result::TryResult::Locked;
        }
        match self.pos(k) {
            Some(i) => {
                self.st.store(usize::MAX, SeqCst);
                try_result::TryResult::Present(mapref::one::RefMut {
                    kv: &mut self.raw()[i],
                    _l: WriteLock(self.id, &self.st),
                })
            }
            None => try_result::TryResult::Absent,
        }
    }
    pub fn iter(&self) -> iter::Iter<'_, K, V> {
        let l = std::sync::Arc::new(self.read_lock("map iter"));
        iter::Iter { it: self.raw().iter(), l }
    }
    pub fn iter_mut(&self) -> iter::IterMut<'_, K, V> {
        let l = std::sync::Arc::new(self.write_lock("map iter_mut"));
        iter::IterMut { it: self.raw().iter_mut(), l }
    }
    pub fn entry(&self, key: K) -> mapref::entry::Entry<'_, K, V> {
        let l = self.write_lock("map entry");
        match self.pos(&key) {
            Some(i) => Entry::Occupied(OccupiedEntry { v: &self.v, i, key, l }),
            None => Entry::Vacant(VacantEntry { v: &self.v, key, l }),
        }
    }
    pub fn view<Q: Eq + Hash + ?Sized, R>(&self, k: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R>
    where
        K: Borrow<Q>,
    {
        let r = self.get(k)?;
        Some(f(r.key(), r.value()))
    }
    pub fn alter<Q: Eq + Hash + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, V) -> V)
    where
        K: Borrow<Q>,
    {
        self.write_step("map alter");
        if let Some(i) = self.pos(k) {
            let (key, v) = self.raw().remove(i);
            let v = f(&key, v);
            self.raw().insert(i, (key, v));
        }
    }
    pub fn alter_all(&self, mut f: impl FnMut(&K, V) -> V) {
        self.write_step("map alter_all");
        for (k, v) in std::mem::take(self.raw()) {
            let v = f(&k, v);
            self.raw().push((k, v));
        }
    }
    pub fn remove_if_mut<Q: Eq + Hash + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &mut V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.write_step("map remove_if");
        let i = self.pos(k)?;
        let (a, b) = &mut self.raw()[i];
        f(a, b).then(|| self.raw().remove(i))
    }
    pub fn shrink_to_fit(&self) {}
    pub fn capacity(&self) -> usize {
        self.len()
    }
}
impl<K, V, S> IntoIterator for DashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.into_inner().into_iter()
    }
}
pub mod try_result {
    pub enum TryResult<R> {
        Present(R),
        Absent,
        Locked,
    }
    impl<R> TryResult<R> {
        pub fn try_unwrap(self) -> Option<R> {
            match self {
                Self::Present(r) => Some(r),
                _ => None,
            }
        }
        pub fn unwrap(self) -> R {
            self.try_unwrap().expect("not present")
        }
        pub fn is_present(&self) -> bool {
            matches!(self, Self::Present(_))
        }
        pub fn is_absent(&self) -> bool {
            matches!(self, Self::Absent)
        }
        pub fn is_locked(&self) -> bool {
            matches!(self, Self::Locked)
        }
    }
}
pub mod iter {
    use super::*;
    pub struct Iter<'a, K, V> {
        pub(crate) it: std::slice::Iter<'a, (K, V)>,
        pub(crate) l: std::sync::Arc<ReadLock<'a>>,
    }
    pub struct IterMut<'a, K, V> {
        pub(crate) it: std::slice::IterMut<'a, (K, V)>,
        pub(crate) l: std::sync::Arc<WriteLock<'a>>,
    }
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = mapref::multiple::RefMutMulti<'a, K, V>;
        fn next(&mut self) -> Option<Self::Item> {
            self.it.next().map(|kv| mapref::multiple::RefMutMulti { kv, _l: self.l.clone() })
        }
    }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = mapref::multiple::RefMulti<'a, K, V>;
        fn next(&mut self) -> Option<Self::Item> {
            self.it.next().map(|kv| mapref::multiple::RefMulti { kv, _l: self.l.clone() })
        }
    }
}
impl<K: Eq + Hash, V, S: Default + BuildHasher + Clone> FromIterator<(K, V)> for DashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let m = Self::default();
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> Extend<(K, V)> for DashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for &'a DashMap<K, V, S> {
    type Item = mapref::multiple::RefMulti<'a, K, V>;
    type IntoIter = iter::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
pub mod mapref {
    pub mod multiple {
        use super::super::*;
        pub struct RefMulti<'a, K, V> {
            pub(crate) kv: &'a (K, V),
            pub(crate) _l: std::sync::Arc<ReadLock<'a>>,
        }
        pub struct RefMutMulti<'a, K, V> {
            pub(crate) kv: &'a mut (K, V),
            pub(crate) _l: std::sync::Arc<WriteLock<'a>>,
        }
        impl<K, V> RefMutMulti<'_, K, V> {
            pub fn key(&self) -> &K {
                &self.kv.0
            }
            pub fn value(&self) -> &V {
                &self.kv.1
            }
            pub fn value_mut(&mut self) -> &mut V {
                &mut self.kv.1
            }
            pub fn pair(&self) -> (&K, &V) {
                (&self.kv.0, &self.kv.1)
            }
            pub fn pair_mut(&mut self) -> (&K, &mut V) {
                (&self.kv.0, &mut self.kv.1)
            }
        }
        impl<K, V> Deref for RefMutMulti<'_, K, V> {
            type Target = V;
            fn deref(&self) -> &V {
                &self.kv.1
            }
        }
        impl<K, V> DerefMut for RefMutMulti<'_, K, V> {
            fn deref_mut(&mut self) -> &mut V {
                &mut self.kv.1
            }
        }
        impl<K, V> RefMulti<'_, K, V> {
            pub fn key(&self) -> &K {
                &self.kv.0
            }
            pub fn value(&self) -> &V {
                &self.kv.1
            }
            pub fn pair(&self) -> (&K, &V) {
                (&self.kv.0, &self.kv.1)
            }
        }
        impl<K, V> Deref for RefMulti<'_, K, V> {
            type Target = V;
            fn deref(&self) -> &V {
                &self.kv.1
            }
        }
    }
    pub mod one {
        use super::super::*;
        pub struct Ref<'a, K, V> {
            pub(crate) kv: &'a (K, V),
            pub(crate) _l: ReadLock<'a>,
        }
        impl<K, V> Ref<'_, K, V> {
            pub fn key(&self) -> &K {
                &self.kv.0
            }
            pub fn value(&self) -> &V {
                &self.kv.1
            }
            pub fn pair(&self) -> (&K, &V) {
                (&self.kv.0, &self.kv.1)
            }
        }
        impl<K, V: fmt::Debug> fmt::Debug for Ref<'_, K, V> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.kv.1.fmt(f)
            }
        }
        impl<K, V> Deref for Ref<'_, K, V> {
            type Target = V;
            fn deref(&self) -> &V {
                &self.kv.1
            }
        }
        pub struct RefMut<'a, K, V> {
            pub(crate) kv: &'a mut (K, V),
            pub(crate) _l: WriteLock<'a>,
        }
        impl<K, V> RefMut<'_, K, V> {
            pub fn key(&self) -> &K {
                &self.kv.0
            }
            pub fn value(&self) -> &V {
                &self.kv.1
            }
            pub fn value_mut(&mut self) -> &mut V {
                &mut self.kv.1
            }
            pub fn pair(&self) -> (&K, &V) {
                (&self.kv.0, &self.kv.1)
            }
            pub fn pair_mut(&mut self) -> (&K, &mut V) {
                (&self.kv.0, &mut self.kv.1)
            }
        }
        impl<K, V> Deref for RefMut<'_, K, V> {
            type Target = V;
            fn deref(&self) -> &V {
                &self.kv.1
            }
        }
        impl<K, V> DerefMut for RefMut<'_, K, V> {
            fn deref_mut(&mut self) -> &mut V {
                &mut self.kv.1
            }
        }
    }
    pub mod entry {
        use super::super::*;
        use super::one::RefMut;
        pub enum Entry<'a, K, V> {
            Occupied(OccupiedEntry<'a, K, V>),
            Vacant(VacantEntry<'a, K, V>),
        }
        pub struct OccupiedEntry<'a, K, V> {
            pub(crate) v: &'a UnsafeCell<Vec<(K, V)>>,
            pub(crate) i: usize,
            pub(crate) key: K,
            pub(crate) l: WriteLock<'a>,
        }
        pub struct VacantEntry<'a, K, V> {
            pub(crate) v: &'a UnsafeCell<Vec<(K, V)>>,
            pub(crate) key: K,
            pub(crate) l: WriteLock<'a>,
        }
        impl<'a, K: Eq + Hash, V> VacantEntry<'a, K, V> {
            pub fn insert(self, v: V) -> RefMut<'a, K, V> {
                let m = unsafe { &mut *self.v.get() };
                m.push((self.key, v));
                RefMut { kv: m.last_mut().unwrap(), _l: self.l }
            }
            pub fn key(&self) -> &K {
                &self.key
            }
            pub fn into_key(self) -> K {
                self.key
            }
        }
        impl<'a, K: Eq + Hash, V> OccupiedEntry<'a, K, V> {
            #[allow(clippy::mut_from_ref)]
            fn kv(&self) -> &'a mut (K, V) {
                let m: &'a mut Vec<(K, V)> = unsafe { &mut *self.v.get() };
                &mut m[self.i]
            }
            pub fn get(&self) -> &V {
                &self.kv().1
            }
            pub fn get_mut(&mut self) -> &mut V {
                &mut self.kv().1
            }
            pub fn insert(&mut self, v: V) -> V {
                std::mem::replace(self.get_mut(), v)
            }
            pub fn into_ref(self) -> RefMut<'a, K, V> {
                RefMut { kv: self.kv(), _l: self.l }
            }
            pub fn key(&self) -> &K {
                &self.kv().0
            }
            pub fn into_key(self) -> K {
                self.key
            }
            pub fn remove(self) -> V {
                self.remove_entry().1
            }
            pub fn remove_entry(self) -> (K, V) {
                unsafe { (*self.v.get()).remove(self.i) }
            }
        }
        impl<'a, K: Eq + Hash, V> Entry<'a, K, V> {
            pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
                match self {
                    Entry::Occupied(e) => e.into_ref(),
                    Entry::Vacant(e) => e.insert(f()),
                }
            }
            pub fn or_try_insert_with<E>(self, f: impl FnOnce() -> Result<V, E>) -> Result<RefMut<'a, K, V>, E> {
                Ok(match self {
                    Entry::Occupied(e) => e.into_ref(),
                    Entry::Vacant(e) => e.insert(f()?),
                })
            }
            pub fn or_insert(self, v: V) -> RefMut<'a, K, V> {
                self.or_insert_with(|| v)
            }
            pub fn or_default(self) -> RefMut<'a, K, V>
            where
                V: Default,
            {
                self.or_insert_with(V::default)
            }
            pub fn insert(self, v: V) -> RefMut<'a, K, V> {
                match self {
                    Entry::Occupied(mut e) => {
                        e.insert(v);
                        e.into_ref()
                    }
                    Entry::Vacant(e) => e.insert(v),
                }
            }
            pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
                if let Entry::Occupied(e) = &mut self {
                    f(e.get_mut());
                }
                self
            }
            pub fn key(&self) -> &K {
                match self {
                    Entry::Occupied(e) => e.key(),
                    Entry::Vacant(e) => e.key(),
                }
            }
            pub fn into_key(self) -> K {
                match self {
                    Entry::Occupied(e) => e.into_key(),
                    Entry::Vacant(e) => e.into_key(),
                }
            }
        }
    }
}
pub use mapref::entry::{Entry, OccupiedEntry, VacantEntry};
