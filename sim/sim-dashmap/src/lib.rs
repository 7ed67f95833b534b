//! Simulated `dashmap`: a few shards, each behind a reader-writer lock whose hold times are visible to others.
use simk::ObjId;
use std::{
    borrow::Borrow,
    cell::{Cell, UnsafeCell},
    collections::hash_map::RandomState,
    fmt,
    hash::{BuildHasher, DefaultHasher, Hash, Hasher},
    marker::PhantomData,
    ops::{Deref, DerefMut},
};

const SHARDS: usize = 4;

pub mod try_result {
    pub enum TryResult<R> {
        Present(R),
        Absent,
        Locked,
    }
    impl<R> TryResult<R> {
        pub fn is_present(&self) -> bool {
            matches!(self, Self::Present(_))
        }
        pub fn is_absent(&self) -> bool {
            matches!(self, Self::Absent)
        }
        pub fn is_locked(&self) -> bool {
            matches!(self, Self::Locked)
        }
        pub fn unwrap(self) -> R {
            self.try_unwrap().expect("called unwrap on an absent or locked value")
        }
        pub fn try_unwrap(self) -> Option<R> {
            match self {
                Self::Present(r) => Some(r),
                _ => None,
            }
        }
    }
}
use try_result::TryResult;

struct Shard<K, V> {
    id: ObjId,
    state: Cell<isize>,
    items: UnsafeCell<Vec<(K, Box<V>)>>,
}
impl<K, V> Shard<K, V> {
    fn rlock(&self) {
        while self.state.get() < 0 {
            simk::block_on("dashmap.read.wait", &[self.id.get()], None);
        }
        self.state.set(self.state.get() + 1);
    }
    fn wlock(&self) {
        while self.state.get() != 0 {
            simk::block_on("dashmap.write.wait", &[self.id.get()], None);
        }
        self.state.set(-1);
    }
    fn runlock(&self) {
        self.state.set(self.state.get() - 1);
        simk::wake(self.id.get());
    }
    fn wunlock(&self) {
        self.state.set(0);
        simk::wake(self.id.get());
    }
    #[allow(clippy::mut_from_ref)]
    fn items(&self) -> &mut Vec<(K, Box<V>)> {
        unsafe { &mut *self.items.get() }
    }
}

pub struct DashMap<K, V, S = RandomState> {
    shards: Vec<Shard<K, V>>,
    s: PhantomData<fn() -> S>,
}
unsafe impl<K: Send, V: Send, S> Send for DashMap<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S> Sync for DashMap<K, V, S> {}

pub struct Ref<'a, K, V> {
    sh: &'a Shard<K, V>,
    k: *const K,
    v: *const V,
}
pub struct RefMut<'a, K, V> {
    sh: &'a Shard<K, V>,
    k: *const K,
    v: *mut V,
}
impl<K, V> Drop for Ref<'_, K, V> {
    fn drop(&mut self) {
        self.sh.runlock()
    }
}
impl<K, V> Drop for RefMut<'_, K, V> {
    fn drop(&mut self) {
        self.sh.wunlock()
    }
}
impl<K, V> Ref<'_, K, V> {
    pub fn key(&self) -> &K {
        unsafe { &*self.k }
    }
    pub fn value(&self) -> &V {
        unsafe { &*self.v }
    }
    pub fn pair(&self) -> (&K, &V) {
        (self.key(), self.value())
    }
}
impl<K, V> Deref for Ref<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<'a, K, V> RefMut<'a, K, V> {
    pub fn pair(&self) -> (&K, &V) {
        (self.key(), self.value())
    }
    pub fn pair_mut(&mut self) -> (&K, &mut V) {
        unsafe { (&*self.k, &mut *self.v) }
    }
    pub fn downgrade(self) -> Ref<'a, K, V> {
        let this = std::mem::ManuallyDrop::new(self);
        this.sh.wunlock();
        this.sh.rlock();
        Ref { sh: this.sh, k: this.k, v: this.v }
    }
    pub fn key(&self) -> &K {
        unsafe { &*self.k }
    }
    pub fn value(&self) -> &V {
        unsafe { &*self.v }
    }
    pub fn value_mut(&mut self) -> &mut V {
        unsafe { &mut *self.v }
    }
}
impl<K, V> Deref for RefMut<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<K, V> DerefMut for RefMut<'_, K, V> {
    fn deref_mut(&mut self) -> &mut V {
        self.value_mut()
    }
}
pub type RefMulti<'a, K, V> = Ref<'a, K, V>;
pub mod mapref {
    pub mod one {
        pub use crate::{Ref, RefMut};
    }
    pub mod multiple {
        pub use crate::{RefMulti, RefMutMulti};
    }
    pub mod entry {
        pub use crate::{Entry, OccupiedEntry, VacantEntry};
    }
}

impl<K, V, S> Default for DashMap<K, V, S> {
    fn default() -> Self {
        Self {
            shards: (0..SHARDS)
                .map(|_| Shard { id: ObjId::new(), state: Cell::new(0), items: UnsafeCell::new(vec![]) })
                .collect(),
            s: PhantomData,
        }
    }
}
impl<K, V> DashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<K, V, S> fmt::Debug for DashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("DashMap { .. }")
    }
}
impl<K: Eq + Hash, V, S> DashMap<K, V, S> {
    pub fn with_hasher(_: S) -> Self {
        Self::default()
    }
    pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
        Self::default()
    }
    fn shard<Q: Hash + ?Sized>(&self, k: &Q) -> &Shard<K, V> {
        let mut h = DefaultHasher::new();
        k.hash(&mut h);
        &self.shards[h.finish() as usize % SHARDS]
    }
    fn find<Q: Eq + ?Sized>(sh: &Shard<K, V>, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        sh.items().iter().position(|(x, _)| x.borrow() == k)
    }
    fn write<R>(&self, sh: &Shard<K, V>, f: impl FnOnce(&mut Vec<(K, Box<V>)>) -> R) -> R {
        simk::point("dashmap.write");
        sh.wlock();
        simk::point("dashmap.write.locked");
        let r = f(sh.items());
        simk::point("dashmap.write.unlock");
        sh.wunlock();
        r
    }
    fn read<R>(&self, sh: &Shard<K, V>, f: impl FnOnce(&Vec<(K, Box<V>)>) -> R) -> R {
        simk::point("dashmap.read");
        sh.rlock();
        let r = f(sh.items());
        sh.runlock();
        r
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        let sh = self.shard(&k);
        self.write(sh, |it| match it.iter().position(|(x, _)| *x == k) {
            Some(i) => Some(*std::mem::replace(&mut it[i].1, Box::new(v))),
            None => {
                it.push((k, Box::new(v)));
                None
            }
        })
    }
    pub fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        self.write(sh, |_| Self::find(sh, k).map(|i| sh.items().remove(i))).map(|(k, v)| (k, *v))
    }
    pub fn remove_if<Q: Hash + Eq + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        self.write(sh, |it| match Self::find(sh, k) {
            Some(i) if f(&it[i].0, &it[i].1) => Some(it.remove(i)),
            _ => None,
        })
        .map(|(k, v)| (k, *v))
    }
    pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        self.read(sh, |_| Self::find(sh, k).is_some())
    }
    pub fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<Ref<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        simk::point("dashmap.get");
        sh.rlock();
        match Self::find(sh, k) {
            Some(i) => {
                let r = Ref { sh, k: &sh.items()[i].0, v: &*sh.items()[i].1 };
                simk::point("dashmap.get.locked");
                Some(r)
            }
            None => {
                sh.runlock();
                None
            }
        }
    }
    pub fn try_get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> TryResult<Ref<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        simk::point("dashmap.try_get");
        if sh.state.get() < 0 {
            return TryResult::Locked;
        }
        sh.rlock();
        match Self::find(sh, k) {
            Some(i) => TryResult::Present(Ref { sh, k: &sh.items()[i].0, v: &*sh.items()[i].1 }),
            None => {
                sh.runlock();
                TryResult::Absent
            }
        }
    }
    pub fn get_mut<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<RefMut<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        simk::point("dashmap.get_mut");
        sh.wlock();
        match Self::find(sh, k) {
            Some(i) => {
                let (k, v) = &mut sh.items()[i];
                Some(RefMut { sh, k, v: &mut **v })
            }
            None => {
                sh.wunlock();
                None
            }
        }
    }
    pub fn try_get_mut<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> TryResult<RefMut<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        simk::point("dashmap.try_get_mut");
        if sh.state.get() != 0 {
            return TryResult::Locked;
        }
        match self.get_mut(k) {
            Some(r) => TryResult::Present(r),
            None => TryResult::Absent,
        }
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        for sh in &self.shards {
            let mut gone = vec![];
            self.write(sh, |it| {
                let mut i = 0;
                while i < it.len() {
                    let (k, v) = &mut it[i];
                    if f(k, v) { i += 1 } else { gone.push(it.remove(i)) }
                }
            });
            drop(gone);
        }
    }
    pub fn clear(&self) {
        self.retain(|_, _| false)
    }
    pub fn len(&self) -> usize {
        self.shards.iter().map(|sh| self.read(sh, |it| it.len())).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> Iter<'_, K, V, S> {
        simk::point("dashmap.iter");
        Iter { m: self, shard: 0, pos: 0, held: false }
    }
    pub fn entry(&self, k: K) -> Entry<'_, K, V> {
        let sh = self.shard(&k);
        simk::point("dashmap.entry");
        sh.wlock();
        match sh.items().iter().position(|(x, _)| *x == k) {
            Some(i) => {
                let (k, v) = &mut sh.items()[i];
                Entry::Occupied(OccupiedEntry { r: RefMut { sh, k, v: &mut **v } })
            }
            None => Entry::Vacant(VacantEntry { sh, k: Some(k) }),
        }
    }
    pub fn try_entry(&self, k: K) -> Option<Entry<'_, K, V>> {
        simk::point("dashmap.try_entry");
        if self.shard(&k).state.get() != 0 {
            return None;
        }
        Some(self.entry(k))
    }
    pub fn alter<Q: Hash + Eq + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, V) -> V)
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        self.write(sh, |_| {
            if let Some(i) = Self::find(sh, k) {
                let (k, v) = sh.items().remove(i);
                let v = f(&k, *v);
                sh.items().insert(i, (k, Box::new(v)));
            }
        })
    }
    pub fn alter_all(&self, mut f: impl FnMut(&K, V) -> V) {
        for sh in &self.shards {
            self.write(sh, |it| {
                for (k, v) in std::mem::take(it) {
                    let v = f(&k, *v);
                    it.push((k, Box::new(v)));
                }
            })
        }
    }
    pub fn remove_if_mut<Q: Hash + Eq + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &mut V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let sh = self.shard(k);
        self.write(sh, |it| match Self::find(sh, k) {
            Some(i) => {
                let (k, v) = &mut it[i];
                f(k, v).then(|| it.remove(i))
            }
            None => None,
        })
        .map(|(k, v)| (k, *v))
    }
    pub fn shrink_to_fit(&self) {}
    pub fn capacity(&self) -> usize {
        self.len()
    }
    pub fn iter_mut(&self) -> IterMut<'_, K, V> {
        simk::point("dashmap.iter");
        IterMut { shards: self.shards.iter(), cur: None }
    }
    pub fn view<Q: Hash + Eq + ?Sized, R>(&self, k: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R>
    where
        K: Borrow<Q>,
    {
        self.get(k).map(|r| f(r.key(), r.value()))
    }
}

/// Holds the current shard's write lock while any of its items is borrowed or left.
pub struct IterMut<'a, K, V> {
    shards: std::slice::Iter<'a, Shard<K, V>>,
    cur: Option<(std::rc::Rc<WGuard<'a, K, V>>, usize)>,
}
struct WGuard<'a, K, V>(&'a Shard<K, V>);
impl<K, V> Drop for WGuard<'_, K, V> {
    fn drop(&mut self) {
        self.0.wunlock()
    }
}
pub struct RefMutMulti<'a, K, V> {
    _g: std::rc::Rc<WGuard<'a, K, V>>,
    k: *const K,
    v: *mut V,
}
impl<K, V> RefMutMulti<'_, K, V> {
    pub fn key(&self) -> &K {
        unsafe { &*self.k }
    }
    pub fn value(&self) -> &V {
        unsafe { &*self.v }
    }
    pub fn value_mut(&mut self) -> &mut V {
        unsafe { &mut *self.v }
    }
    pub fn pair_mut(&mut self) -> (&K, &mut V) {
        unsafe { (&*self.k, &mut *self.v) }
    }
}
impl<K, V> Deref for RefMutMulti<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<K, V> DerefMut for RefMutMulti<'_, K, V> {
    fn deref_mut(&mut self) -> &mut V {
        self.value_mut()
    }
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = RefMutMulti<'a, K, V>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some((g, i)) = &mut self.cur {
                if let Some((k, v)) = g.0.items().get_mut(*i) {
                    *i += 1;
                    return Some(RefMutMulti { _g: g.clone(), k, v: &mut **v });
                }
                self.cur = None;
            }
            let sh = self.shards.next()?;
            simk::point("dashmap.iter.shard");
            sh.wlock();
            self.cur = Some((std::rc::Rc::new(WGuard(sh)), 0));
        }
    }
}

pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    r: RefMut<'a, K, V>,
}
pub struct VacantEntry<'a, K, V> {
    sh: &'a Shard<K, V>,
    k: Option<K>,
}
impl<K, V> Drop for VacantEntry<'_, K, V> {
    fn drop(&mut self) {
        if self.k.is_some() {
            self.sh.wunlock();
        }
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(mut self, v: V) -> RefMut<'a, K, V> {
        let k = self.k.take().unwrap();
        let sh = self.sh;
        sh.items().push((k, Box::new(v)));
        let (k, v) = sh.items().last_mut().unwrap();
        RefMut { sh, k, v: &mut **v }
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        self.k.as_ref().unwrap()
    }
    pub fn into_key(mut self) -> K {
        let k = self.k.take().unwrap();
        self.sh.wunlock();
        k
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
        OccupiedEntry { r: self.insert(v) }
    }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        self.r.key()
    }
    pub fn remove_entry(self) -> (K, V) {
        let sh = self.r.sh;
        let k = self.r.k;
        let i = sh.items().iter().position(|(x, _)| std::ptr::eq(x, k)).unwrap();
        let (k, v) = sh.items().remove(i);
        (k, *v)
    }
    pub fn get(&self) -> &V {
        self.r.value()
    }
    pub fn get_mut(&mut self) -> &mut V {
        self.r.value_mut()
    }
    pub fn into_ref(self) -> RefMut<'a, K, V> {
        self.r
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.r.value_mut(), v)
    }
    pub fn remove(self) -> V {
        let sh = self.r.sh;
        let k = self.r.k;
        let i = sh.items().iter().position(|(x, _)| std::ptr::eq(x, k)).unwrap();
        let (_, v) = sh.items().remove(i);
        *v
    }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn key(&self) -> &K {
        match self {
            Self::Occupied(o) => o.key(),
            Self::Vacant(v) => v.key(),
        }
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
        OccupiedEntry { r: self.insert(v) }
    }
    pub fn or_try_insert_with<E>(self, f: impl FnOnce() -> Result<V, E>) -> Result<RefMut<'a, K, V>, E> {
        match self {
            Self::Occupied(o) => Ok(o.r),
            Self::Vacant(v) => Ok(v.insert(f()?)),
        }
    }
    pub fn or_insert(self, v: V) -> RefMut<'a, K, V> {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
        match self {
            Self::Occupied(o) => o.r,
            Self::Vacant(v) => v.insert(f()),
        }
    }
    pub fn or_default(self) -> RefMut<'a, K, V>
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
        if let Self::Occupied(o) = &mut self {
            f(o.get_mut());
        }
        self
    }
    pub fn insert(self, v: V) -> RefMut<'a, K, V> {
        match self {
            Self::Occupied(mut o) => {
                o.insert(v);
                o.r
            }
            Self::Vacant(e) => e.insert(v),
        }
    }
}

/// Holds the current shard's read lock between items, as the real iterator does.
pub struct Iter<'a, K, V, S> {
    m: &'a DashMap<K, V, S>,
    shard: usize,
    pos: usize,
    held: bool,
}
impl<'a, K, V, S> Iterator for Iter<'a, K, V, S> {
    type Item = RefMulti<'a, K, V>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let sh = self.m.shards.get(self.shard)?;
            if !self.held {
                simk::point("dashmap.iter.shard");
                sh.rlock();
                self.held = true;
                self.pos = 0;
            }
            if self.pos < sh.items().len() {
                let (k, v) = &sh.items()[self.pos];
                self.pos += 1;
                sh.rlock();
                return Some(Ref { sh, k, v: &**v });
            }
            sh.runlock();
            self.held = false;
            self.shard += 1;
        }
    }
}
impl<K, V, S> Drop for Iter<'_, K, V, S> {
    fn drop(&mut self) {
        if self.held {
            self.m.shards[self.shard].runlock();
        }
    }
}
impl<'a, K: Eq + Hash, V, S> IntoIterator for &'a DashMap<K, V, S> {
    type Item = RefMulti<'a, K, V>;
    type IntoIter = Iter<'a, K, V, S>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> FromIterator<(K, V)> for DashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let m = Self::default();
        for (k, v) in i {
            m.insert(k, v);
        }
        m
    }
}

impl<K: Eq + Hash, V, S> IntoIterator for DashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        let all: Vec<(K, V)> =
            self.shards.into_iter().flat_map(|s| s.items.into_inner()).map(|(k, v)| (k, *v)).collect();
        all.into_iter()
    }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for DashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        for (k, v) in i {
            self.insert(k, v);
        }
    }
}
/// A concurrent set.
pub struct DashSet<K, S = RandomState>(DashMap<K, (), S>);
impl<K, S> Default for DashSet<K, S> {
    fn default() -> Self {
        Self(DashMap::default())
    }
}
impl<K> DashSet<K> {
    pub fn new() -> Self {
        Self::default()
    }
}
impl<K: Eq + Hash, S> DashSet<K, S> {
    pub fn insert(&self, k: K) -> bool {
        self.0.insert(k, ()).is_none()
    }
    pub fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<K>
    where
        K: Borrow<Q>,
    {
        self.0.remove(k).map(|(k, ())| k)
    }
    pub fn contains<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&self) {
        self.0.clear()
    }
}
