//! Model of the hash containers used by graphbench, for symbolic execution only.
//!
//! A map is a handle; which keys it contains is tracked by the symbolic executor (one condition per key), the
//! key/value pairs live in one memory slot per (map, key). Iteration visits keys in the order in which they were
//! first hashed during the run. Dropping a map does not run the destructors of its values (they are leaked).
//!
//! The crate also acts as a stand-in for `std` (`extern crate fxhash as std`), so that `std::collections::HashMap`
//! and `HashSet` resolve to the model and `std::fs` to an in-memory file system.
#![allow(clippy::all)]

pub use ::std::*;

use ::std::borrow::Borrow;
pub use ::std::fmt;
use ::std::hash::{BuildHasher, Hash, Hasher};
use ::std::marker::PhantomData;
pub use ::std::mem;
use ::std::ops::Index;
pub use ::std::ptr;

pub mod fs;

extern "C" {
    fn gbm_hash_push(state: u64, word: u64, width: u32) -> u64;
    fn gbm_new(slot_size: usize) -> u64;
    fn gbm_free(h: u64);
    fn gbm_clear(h: u64);
    fn gbm_find(h: u64, key: u64) -> *mut u8;
    fn gbm_has(h: u64, key: u64) -> bool;
    fn gbm_mark(h: u64, key: u64) -> bool;
    fn gbm_slot(h: u64, key: u64) -> *mut u8;
    fn gbm_unmark(h: u64, key: u64) -> bool;
    fn gbm_len(h: u64) -> usize;
    fn gbm_empty(h: u64) -> bool;
    fn gbm_iter_new() -> u64;
    fn gbm_next(h: u64, pos: u64, cursor: *mut u64) -> *mut u8;
    fn gbm_remaining(h: u64, cursor: u64) -> usize;
    fn gbm_subset(a: u64, b: u64) -> bool;
    fn gbm_copy(dst: u64, src: u64);
}

/// Records what is hashed; equal inputs get equal codes and different inputs different codes.
#[derive(Clone, Copy, Default, Debug)]
pub struct FxHasher {
    state: u64,
}
pub type FxHasher64 = FxHasher;
pub type FxHasher32 = FxHasher;
pub type DefaultHasher = FxHasher;

impl FxHasher {
    pub fn new() -> Self {
        FxHasher { state: 0 }
    }
    #[inline]
    fn push(&mut self, w: u64, width: u32) {
        self.state = unsafe { gbm_hash_push(self.state, w, width) };
    }
}

impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.state
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() {
            self.push(bytes[i] as u64, 1);
            i += 1;
        }
    }
    #[inline]
    fn write_u8(&mut self, i: u8) {
        self.push(i as u64, 1)
    }
    #[inline]
    fn write_u16(&mut self, i: u16) {
        self.push(i as u64, 2)
    }
    #[inline]
    fn write_u32(&mut self, i: u32) {
        self.push(i as u64, 4)
    }
    #[inline]
    fn write_u64(&mut self, i: u64) {
        self.push(i, 8)
    }
    #[inline]
    fn write_usize(&mut self, i: usize) {
        self.push(i as u64, 8)
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct FxBuildHasher;
pub type RandomState = FxBuildHasher;

impl FxBuildHasher {
    pub fn new() -> Self {
        FxBuildHasher
    }
}

impl BuildHasher for FxBuildHasher {
    type Hasher = FxHasher;
    fn build_hasher(&self) -> FxHasher {
        FxHasher { state: 0 }
    }
}

pub fn hash64<T: Hash + ?Sized>(v: &T) -> u64 {
    code(v)
}
pub fn hash<T: Hash + ?Sized>(v: &T) -> usize {
    code(v) as usize
}
pub fn hash32<T: Hash + ?Sized>(v: &T) -> u32 {
    code(v) as u32
}

#[inline]
fn code<Q: Hash + ?Sized>(q: &Q) -> u64 {
    let mut h = FxHasher { state: 0 };
    q.hash(&mut h);
    h.state
}

pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<K> = HashSet<K, FxBuildHasher>;

pub struct HashMap<K, V, S = FxBuildHasher> {
    h: u64,
    s: S,
    p: PhantomData<(K, V)>,
}

unsafe impl<K: Send, V: Send, S: Send> Send for HashMap<K, V, S> {}
unsafe impl<K: Sync, V: Sync, S: Sync> Sync for HashMap<K, V, S> {}

impl<K, V, S> Drop for HashMap<K, V, S> {
    fn drop(&mut self) {
        unsafe { gbm_free(self.h) }
    }
}

impl<K, V> HashMap<K, V, FxBuildHasher> {
    pub fn new() -> Self {
        Self::with_hasher(FxBuildHasher)
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::with_hasher(FxBuildHasher)
    }
}

impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(s: S) -> Self {
        HashMap { h: unsafe { gbm_new(mem::size_of::<(K, V)>()) }, s, p: PhantomData }
    }
    pub fn with_capacity_and_hasher(_n: usize, s: S) -> Self {
        Self::with_hasher(s)
    }
    pub fn hasher(&self) -> &S {
        &self.s
    }
    pub fn len(&self) -> usize {
        unsafe { gbm_len(self.h) }
    }
    pub fn is_empty(&self) -> bool {
        unsafe { gbm_empty(self.h) }
    }
    pub fn capacity(&self) -> usize {
        self.len()
    }
    pub fn clear(&mut self) {
        unsafe { gbm_clear(self.h) }
    }
    fn raw(&self) -> Raw<K, V> {
        Raw { h: self.h, pos: unsafe { gbm_iter_new() }, cursor: 0, p: PhantomData }
    }
    pub fn iter(&self) -> hmap::Iter<'_, K, V> {
        hmap::Iter { r: self.raw(), p: PhantomData }
    }
    pub fn iter_mut(&mut self) -> hmap::IterMut<'_, K, V> {
        hmap::IterMut { r: self.raw(), p: PhantomData }
    }
    pub fn keys(&self) -> hmap::Keys<'_, K, V> {
        hmap::Keys { r: self.raw(), p: PhantomData }
    }
    pub fn values(&self) -> hmap::Values<'_, K, V> {
        hmap::Values { r: self.raw(), p: PhantomData }
    }
    pub fn values_mut(&mut self) -> hmap::ValuesMut<'_, K, V> {
        hmap::ValuesMut { r: self.raw(), p: PhantomData }
    }
    pub fn into_keys(self) -> hmap::IntoKeys<K, V> {
        hmap::IntoKeys { r: self.into_raw() }
    }
    pub fn into_values(self) -> hmap::IntoValues<K, V> {
        hmap::IntoValues { r: self.into_raw() }
    }
    fn into_raw(self) -> Raw<K, V> {
        let r = self.raw();
        mem::forget(self);
        r
    }
    pub fn drain(&mut self) -> hmap::Drain<'_, K, V> {
        let h = mem::replace(&mut self.h, unsafe { gbm_new(mem::size_of::<(K, V)>()) });
        hmap::Drain { r: Raw { h, pos: unsafe { gbm_iter_new() }, cursor: 0, p: PhantomData }, p: PhantomData }
    }
    pub fn retain<F>(&mut self, mut f: F)
    where
        F: FnMut(&K, &mut V) -> bool,
        K: Hash,
    {
        let mut r = self.raw();
        while let Some(p) = r.next() {
            unsafe {
                if !f(&(*p).0, &mut (*p).1) {
                    gbm_unmark(self.h, code(&(*p).0));
                }
            }
        }
    }
}

impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn try_reserve(&mut self, _n: usize) -> Result<(), collections::TryReserveError> {
        Ok(())
    }
    pub fn shrink_to(&mut self, _n: usize) {}
    #[inline]
    fn find<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> *mut (K, V)
    where
        K: Borrow<Q>,
    {
        unsafe { gbm_find(self.h, code(k)) as *mut (K, V) }
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let p = self.find(k);
        if p.is_null() {
            None
        } else {
            Some(unsafe { &(*p).1 })
        }
    }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        let p = self.find(k);
        if p.is_null() {
            None
        } else {
            Some(unsafe { (&(*p).0, &(*p).1) })
        }
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let p = self.find(k);
        if p.is_null() {
            None
        } else {
            Some(unsafe { &mut (*p).1 })
        }
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        unsafe { gbm_has(self.h, code(k)) }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let c = code(&k);
        unsafe {
            let p = gbm_slot(self.h, c) as *mut (K, V);
            if gbm_mark(self.h, c) {
                Some(mem::replace(&mut (*p).1, v))
            } else {
                ptr::write(p, (k, v));
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove_entry(k).map(|x| x.1)
    }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let c = code(k);
        unsafe {
            if gbm_unmark(self.h, c) {
                Some(ptr::read(gbm_slot(self.h, c) as *mut (K, V)))
            } else {
                None
            }
        }
    }
    pub fn entry(&mut self, k: K) -> hmap::Entry<'_, K, V> {
        let c = code(&k);
        unsafe {
            let p = gbm_slot(self.h, c) as *mut (K, V);
            if gbm_has(self.h, c) {
                hmap::Entry::Occupied(hmap::OccupiedEntry { h: self.h, c, p, k, m: PhantomData })
            } else {
                hmap::Entry::Vacant(hmap::VacantEntry { h: self.h, c, p, k, m: PhantomData })
            }
        }
    }
}

impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}

impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        let n = Self::with_hasher(self.s.clone());
        if !mem::needs_drop::<(K, V)>() {
            unsafe { gbm_copy(n.h, self.h) }
        } else {
            // Fill the copy slot by slot: the slot of a key is found through the source slot's rank.
            let mut r = self.raw();
            while let Some(p) = r.next() {
                unsafe {
                    let c = gbm_key_at(r.cursor - 1);
                    let q = gbm_slot(n.h, c) as *mut (K, V);
                    gbm_mark(n.h, c);
                    ptr::write(q, ((*p).0.clone(), (*p).1.clone()));
                }
            }
        }
        n
    }
}

extern "C" {
    fn gbm_key_at(rank: u64) -> u64;
}

impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut ok = true;
        let mut r = self.raw();
        while let Some(p) = r.next() {
            unsafe {
                let q = gbm_find(o.h, code(&(*p).0)) as *mut (K, V);
                if q.is_null() {
                    ok = false;
                } else {
                    ok = ok & ((*q).1 == (*p).1);
                }
            }
        }
        ok
    }
}
impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}

impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}

impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}

impl<K: Eq + Hash, V, S: Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, FxBuildHasher> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(*k, *v);
        }
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = hmap::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = hmap::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = hmap::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        hmap::IntoIter { r: self.into_raw() }
    }
}

/// Cursor over a map.
pub struct Raw<K, V> {
    h: u64,
    pos: u64,
    cursor: u64,
    p: PhantomData<(K, V)>,
}
impl<K, V> Clone for Raw<K, V> {
    fn clone(&self) -> Self {
        Raw { h: self.h, pos: self.pos, cursor: self.cursor, p: PhantomData }
    }
}
impl<K, V> Raw<K, V> {
    #[inline]
    fn next(&mut self) -> Option<*mut (K, V)> {
        let p = unsafe { gbm_next(self.h, self.pos, &mut self.cursor) } as *mut (K, V);
        if p.is_null() {
            None
        } else {
            Some(p)
        }
    }
    fn remaining(&self) -> usize {
        unsafe { gbm_remaining(self.h, self.cursor) }
    }
}

macro_rules! map_iter {
    ($(#[$m:meta])* $name:ident<$($lt:lifetime,)? K, V>, $item:ty, $marker:ty, |$p:ident| $e:expr) => {
        pub struct $name<$($lt,)? K, V> {
            pub(crate) r: super::Raw<K, V>,
            pub(crate) p: ::std::marker::PhantomData<$marker>,
        }
        impl<$($lt,)? K, V> Iterator for $name<$($lt,)? K, V> {
            type Item = $item;
            #[inline]
            fn next(&mut self) -> Option<$item> {
                match self.r.next() {
                    Some($p) => Some(unsafe { $e }),
                    None => None,
                }
            }
            // A lower bound of zero is always allowed; it keeps collections from being sized by a symbolic length.
            fn size_hint(&self) -> (usize, Option<usize>) {
                (0, None)
            }
        }
        impl<$($lt,)? K, V> ExactSizeIterator for $name<$($lt,)? K, V> {
            fn len(&self) -> usize {
                self.r.remaining()
            }
        }
        impl<$($lt,)? K, V> ::std::iter::FusedIterator for $name<$($lt,)? K, V> {}
    };
}
macro_rules! owned_iter {
    ($name:ident, $item:ty, |$p:ident| $e:expr) => {
        pub struct $name<K, V> {
            pub(crate) r: super::Raw<K, V>,
        }
        impl<K, V> Iterator for $name<K, V> {
            type Item = $item;
            #[inline]
            fn next(&mut self) -> Option<$item> {
                match self.r.next() {
                    Some($p) => Some(unsafe { $e }),
                    None => None,
                }
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (0, None)
            }
        }
        impl<K, V> ExactSizeIterator for $name<K, V> {
            fn len(&self) -> usize {
                self.r.remaining()
            }
        }
        impl<K, V> ::std::iter::FusedIterator for $name<K, V> {}
        impl<K, V> Drop for $name<K, V> {
            fn drop(&mut self) {
                unsafe { super::gbm_free(self.r.h) }
            }
        }
    };
}

pub mod hmap {
    pub use super::{DefaultHasher, HashMap, RandomState};
    use super::{gbm_mark, gbm_unmark};
    use std::marker::PhantomData;
    use std::mem;
    use std::ptr;

    map_iter!(Iter<'a, K, V>, (&'a K, &'a V), (&'a K, &'a V), |p| (&(*p).0, &(*p).1));
    map_iter!(IterMut<'a, K, V>, (&'a K, &'a mut V), (&'a K, &'a mut V), |p| (&(*p).0, &mut (*p).1));
    map_iter!(Keys<'a, K, V>, &'a K, (&'a K, &'a V), |p| &(*p).0);
    map_iter!(Values<'a, K, V>, &'a V, (&'a K, &'a V), |p| &(*p).1);
    map_iter!(ValuesMut<'a, K, V>, &'a mut V, (&'a K, &'a mut V), |p| &mut (*p).1);
    map_iter!(Drain<'a, K, V>, (K, V), (&'a K, &'a V), |p| ptr::read(p));
    owned_iter!(IntoIter, (K, V), |p| ptr::read(p));
    owned_iter!(IntoKeys, K, |p| ptr::read(p).0);
    owned_iter!(IntoValues, V, |p| ptr::read(p).1);
    impl<K, V> Clone for Iter<'_, K, V> {
        fn clone(&self) -> Self {
            Iter { r: self.r.clone(), p: PhantomData }
        }
    }
    impl<K, V> Clone for Keys<'_, K, V> {
        fn clone(&self) -> Self {
            Keys { r: self.r.clone(), p: PhantomData }
        }
    }
    impl<K, V> Clone for Values<'_, K, V> {
        fn clone(&self) -> Self {
            Values { r: self.r.clone(), p: PhantomData }
        }
    }

    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
        pub(crate) h: u64,
        pub(crate) c: u64,
        pub(crate) p: *mut (K, V),
        pub(crate) k: K,
        pub(crate) m: PhantomData<&'a mut (K, V)>,
    }
    pub struct VacantEntry<'a, K, V> {
        pub(crate) h: u64,
        pub(crate) c: u64,
        pub(crate) p: *mut (K, V),
        pub(crate) k: K,
        pub(crate) m: PhantomData<&'a mut (K, V)>,
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(&e.k);
                    e.insert(v)
                }
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(V::default()),
            }
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => &e.k,
                Entry::Vacant(e) => &e.k,
            }
        }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
            if let Entry::Occupied(e) = &mut self {
                f(e.get_mut());
            }
            self
        }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
            match self {
                Entry::Occupied(mut e) => {
                    e.insert(v);
                    e
                }
                Entry::Vacant(e) => unsafe {
                    gbm_mark(e.h, e.c);
                    ptr::write(&mut (*e.p).1, v);
                    ptr::copy_nonoverlapping(&e.k, &mut (*e.p).0, 1);
                    let VacantEntry { h, c, p, k, m } = e;
                    OccupiedEntry { h, c, p, k, m }
                },
            }
        }
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V {
            unsafe { &(*self.p).1 }
        }
        pub fn get_mut(&mut self) -> &mut V {
            unsafe { &mut (*self.p).1 }
        }
        pub fn into_mut(self) -> &'a mut V {
            unsafe { &mut (*self.p).1 }
        }
        pub fn key(&self) -> &K {
            unsafe { &(*self.p).0 }
        }
        pub fn insert(&mut self, v: V) -> V {
            mem::replace(self.get_mut(), v)
        }
        pub fn remove(self) -> V {
            self.remove_entry().1
        }
        pub fn remove_entry(self) -> (K, V) {
            unsafe {
                gbm_unmark(self.h, self.c);
                ptr::read(self.p)
            }
        }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.k
        }
        pub fn into_key(self) -> K {
            self.k
        }
        pub fn insert(self, v: V) -> &'a mut V {
            unsafe {
                gbm_mark(self.h, self.c);
                let p = self.p;
                ptr::write(p, (self.k, v));
                &mut (*p).1
            }
        }
    }
}

pub struct HashSet<K, S = FxBuildHasher> {
    m: HashMap<K, (), S>,
}

impl<K> HashSet<K, FxBuildHasher> {
    pub fn new() -> Self {
        HashSet { m: HashMap::new() }
    }
    pub fn with_capacity(_n: usize) -> Self {
        HashSet { m: HashMap::new() }
    }
}

impl<K, S> HashSet<K, S> {
    pub fn with_hasher(s: S) -> Self {
        HashSet { m: HashMap::with_hasher(s) }
    }
    pub fn with_capacity_and_hasher(_n: usize, s: S) -> Self {
        HashSet { m: HashMap::with_hasher(s) }
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.m.len()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
    pub fn iter(&self) -> hset::Iter<'_, K> {
        hset::Iter { r: self.m.raw(), p: PhantomData }
    }
    pub fn drain(&mut self) -> hset::Drain<'_, K> {
        hset::Drain { r: self.m.drain() }
    }
    pub fn retain<F>(&mut self, mut f: F)
    where
        F: FnMut(&K) -> bool,
        K: Hash,
    {
        self.m.retain(|k, _| f(k))
    }
}

impl<K: Eq + Hash, S> HashSet<K, S> {
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn try_reserve(&mut self, _n: usize) -> Result<(), collections::TryReserveError> {
        Ok(())
    }
    #[inline]
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.m.contains_key(k)
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&K>
    where
        K: Borrow<Q>,
    {
        self.m.get_key_value(k).map(|x| x.0)
    }
    pub fn insert(&mut self, k: K) -> bool {
        let c = code(&k);
        unsafe {
            let p = gbm_slot(self.m.h, c) as *mut (K, ());
            let was = gbm_mark(self.m.h, c);
            if mem::needs_drop::<K>() || mem::size_of::<K>() > 16 {
                if !was {
                    ptr::write(p, (k, ()));
                }
            } else {
                // Plain values: the stored key is the same either way, no case distinction needed.
                ptr::write(p, (k, ()));
            }
            !was
        }
    }
    pub fn replace(&mut self, k: K) -> Option<K> {
        let r = self.m.remove_entry(&k).map(|x| x.0);
        self.insert(k);
        r
    }
    #[inline]
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        unsafe { gbm_unmark(self.m.h, code(k)) }
    }
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<K>
    where
        K: Borrow<Q>,
    {
        self.m.remove_entry(k).map(|x| x.0)
    }
    pub fn is_subset(&self, o: &Self) -> bool {
        unsafe { gbm_subset(self.m.h, o.m.h) }
    }
    pub fn is_superset(&self, o: &Self) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint(&self, o: &Self) -> bool {
        let mut ok = true;
        for k in self {
            ok = ok & !o.contains(k);
        }
        ok
    }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<K, S>) -> hset::Intersection<'a, K, S> {
        hset::Intersection { it: self.iter(), o }
    }
    pub fn difference<'a>(&'a self, o: &'a HashSet<K, S>) -> hset::Difference<'a, K, S> {
        hset::Difference { it: self.iter(), o }
    }
    pub fn union<'a>(&'a self, o: &'a HashSet<K, S>) -> hset::Union<'a, K, S> {
        hset::Union { it: self.iter().chain(o.difference(self)) }
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<K, S>) -> hset::SymmetricDifference<'a, K, S> {
        hset::SymmetricDifference { it: self.difference(o).chain(o.difference(self)) }
    }
}

impl<K, S: Default> Default for HashSet<K, S> {
    fn default() -> Self {
        HashSet { m: HashMap::default() }
    }
}
impl<K: Clone, S: Clone> Clone for HashSet<K, S> {
    fn clone(&self) -> Self {
        HashSet { m: self.m.clone() }
    }
}
impl<K: Eq + Hash, S> PartialEq for HashSet<K, S> {
    fn eq(&self, o: &Self) -> bool {
        unsafe { gbm_subset(self.m.h, o.m.h) & gbm_subset(o.m.h, self.m.h) }
    }
}
impl<K: Eq + Hash, S> Eq for HashSet<K, S> {}
impl<K: fmt::Debug, S> fmt::Debug for HashSet<K, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
impl<K: Eq + Hash, S: Default> FromIterator<K> for HashSet<K, S> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
        let mut m = Self::default();
        for k in it {
            m.insert(k);
        }
        m
    }
}
impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K, FxBuildHasher> {
    fn from(a: [K; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, S> Extend<K> for HashSet<K, S> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
        for k in it {
            self.insert(k);
        }
    }
}
impl<'a, K: Eq + Hash + Copy + 'a, S> Extend<&'a K> for HashSet<K, S> {
    fn extend<I: IntoIterator<Item = &'a K>>(&mut self, it: I) {
        for k in it {
            self.insert(*k);
        }
    }
}
impl<'a, K, S> IntoIterator for &'a HashSet<K, S> {
    type Item = &'a K;
    type IntoIter = hset::Iter<'a, K>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<K, S> IntoIterator for HashSet<K, S> {
    type Item = K;
    type IntoIter = hset::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        hset::IntoIter { r: self.m.into_raw() }
    }
}
macro_rules! set_op {
    ($tr:ident, $f:ident, $m:ident) => {
        impl<K: Eq + Hash + Clone, S: Default> ::std::ops::$tr<&HashSet<K, S>> for &HashSet<K, S> {
            type Output = HashSet<K, S>;
            fn $f(self, o: &HashSet<K, S>) -> HashSet<K, S> {
                self.$m(o).cloned().collect()
            }
        }
    };
}
set_op!(BitOr, bitor, union);
set_op!(BitAnd, bitand, intersection);
set_op!(Sub, sub, difference);
set_op!(BitXor, bitxor, symmetric_difference);

pub mod hset {
    pub use super::HashSet;
    use std::hash::Hash;
    use std::iter::Chain;
    use std::marker::PhantomData;
    use std::ptr;

    pub struct Iter<'a, K> {
        pub(crate) r: super::Raw<K, ()>,
        pub(crate) p: PhantomData<&'a K>,
    }
    impl<'a, K> Iterator for Iter<'a, K> {
        type Item = &'a K;
        #[inline]
        fn next(&mut self) -> Option<&'a K> {
            match self.r.next() {
                Some(p) => Some(unsafe { &(*p).0 }),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (0, None)
        }
    }
    impl<K> ExactSizeIterator for Iter<'_, K> {
        fn len(&self) -> usize {
            self.r.remaining()
        }
    }
    impl<K> Clone for Iter<'_, K> {
        fn clone(&self) -> Self {
            Iter { r: self.r.clone(), p: PhantomData }
        }
    }
    pub struct IntoIter<K> {
        pub(crate) r: super::Raw<K, ()>,
    }
    impl<K> Iterator for IntoIter<K> {
        type Item = K;
        #[inline]
        fn next(&mut self) -> Option<K> {
            match self.r.next() {
                Some(p) => Some(unsafe { ptr::read(p).0 }),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (0, None)
        }
    }
    impl<K> ExactSizeIterator for IntoIter<K> {
        fn len(&self) -> usize {
            self.r.remaining()
        }
    }
    impl<K> Drop for IntoIter<K> {
        fn drop(&mut self) {
            unsafe { super::gbm_free(self.r.h) }
        }
    }
    pub struct Drain<'a, K> {
        pub(crate) r: super::hmap::Drain<'a, K, ()>,
    }
    impl<K> Iterator for Drain<'_, K> {
        type Item = K;
        fn next(&mut self) -> Option<K> {
            self.r.next().map(|x| x.0)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (0, None)
        }
    }
    pub struct Intersection<'a, K, S> {
        pub(crate) it: Iter<'a, K>,
        pub(crate) o: &'a HashSet<K, S>,
    }
    impl<'a, K: Eq + Hash, S> Iterator for Intersection<'a, K, S> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> {
            while let Some(k) = self.it.next() {
                if self.o.contains(k) {
                    return Some(k);
                }
            }
            None
        }
    }
    impl<K, S> Clone for Intersection<'_, K, S> {
        fn clone(&self) -> Self {
            Intersection { it: self.it.clone(), o: self.o }
        }
    }
    pub struct Difference<'a, K, S> {
        pub(crate) it: Iter<'a, K>,
        pub(crate) o: &'a HashSet<K, S>,
    }
    impl<'a, K: Eq + Hash, S> Iterator for Difference<'a, K, S> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> {
            while let Some(k) = self.it.next() {
                if !self.o.contains(k) {
                    return Some(k);
                }
            }
            None
        }
    }
    impl<K, S> Clone for Difference<'_, K, S> {
        fn clone(&self) -> Self {
            Difference { it: self.it.clone(), o: self.o }
        }
    }
    pub struct Union<'a, K, S> {
        pub(crate) it: Chain<Iter<'a, K>, Difference<'a, K, S>>,
    }
    impl<'a, K: Eq + Hash, S> Iterator for Union<'a, K, S> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> {
            self.it.next()
        }
    }
    pub struct SymmetricDifference<'a, K, S> {
        pub(crate) it: Chain<Difference<'a, K, S>, Difference<'a, K, S>>,
    }
    impl<'a, K: Eq + Hash, S> Iterator for SymmetricDifference<'a, K, S> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> {
            self.it.next()
        }
    }
}

pub mod collections {
    pub use super::hmap as hash_map;
    pub use super::hset as hash_set;
    pub use super::{HashMap, HashSet};
    pub use ::std::collections::*;
}
