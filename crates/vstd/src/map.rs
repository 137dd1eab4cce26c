use std::borrow::Borrow;
use std::collections::HashMap as RealMap;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Index;

/// Deterministic stand-in for the real random state.
#[derive(Clone, Debug, Default)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
}
impl BuildHasher for RandomState {
    type Hasher = Mix;
    fn build_hasher(&self) -> Mix {
        Mix(0x243F_6A88_85A3_08D3)
    }
}

/// A deterministic 64-bit mixing hasher (fast; SipHash strength is not needed
/// because the order of iteration is decided elsewhere).
#[derive(Clone, Debug)]
pub struct Mix(u64);
impl Mix {
    #[inline]
    fn add(&mut self, x: u64) {
        let z = ((self.0 ^ x) as u128 + 1) * 0xF39C_C060_5CED_C835u128;
        self.0 = ((z >> 64) as u64 ^ z as u64).rotate_left(23).wrapping_add(0x1319_8A2E_0370_7344);
    }
}
impl Hasher for Mix {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.add(x as u64 | 0x100)
    }
    fn write_u16(&mut self, x: u16) {
        self.add(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.add(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.add(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.add(x as u64)
    }
    fn write_i8(&mut self, x: i8) {
        self.add(x as u64)
    }
    fn write_i16(&mut self, x: i16) {
        self.add(x as u64)
    }
    fn finish(&self) -> u64 {
        let z = self.0 ^ (self.0 >> 31);
        let z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^ (z >> 29)
    }
}

const SMALL: usize = 24;

struct Slot<K, V> {
    hash: u64,
    k: K,
    v: V,
}

/// Insertion-ordered table with tombstones; big tables carry a hash index.
pub struct HashMap<K, V, S = RandomState> {
    slots: Vec<Option<Slot<K, V>>>,
    len: usize,
    index: Option<RealMap<u64, Vec<u32>>>,
    s: S,
}

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::with_hasher(RandomState)
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}

impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(s: S) -> Self {
        HashMap { slots: Vec::new(), len: 0, index: None, s }
    }
    pub fn with_capacity_and_hasher(_: usize, s: S) -> Self {
        Self::with_hasher(s)
    }
    pub fn capacity(&self) -> usize {
        self.slots.capacity()
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn hasher(&self) -> &S {
        &self.s
    }
    pub fn clear(&mut self) {
        self.slots.clear();
        self.len = 0;
        self.index = None;
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn shrink_to(&mut self, _: usize) {}

    fn compact(&mut self) {
        if self.slots.len() > 2 * self.len + SMALL {
            self.slots.retain(|s| s.is_some());
            self.reindex();
        }
    }
    fn reindex(&mut self) {
        if self.slots.len() <= SMALL {
            self.index = None;
            return;
        }
        let mut ix: RealMap<u64, Vec<u32>> = RealMap::with_capacity(self.slots.len());
        for (i, s) in self.slots.iter().enumerate() {
            if let Some(s) = s {
                ix.entry(s.hash).or_default().push(i as u32);
            }
        }
        self.index = Some(ix);
    }
    fn push_slot(&mut self, hash: u64, k: K, v: V) -> usize {
        self.compact();
        let i = self.slots.len();
        self.slots.push(Some(Slot { hash, k, v }));
        self.len += 1;
        if let Some(ix) = &mut self.index {
            ix.entry(hash).or_default().push(i as u32);
        } else if self.slots.len() > SMALL {
            self.reindex();
        }
        i
    }
    fn take_slot(&mut self, i: usize) -> (K, V) {
        let s = self.slots[i].take().unwrap();
        self.len -= 1;
        if let Some(ix) = &mut self.index {
            if let Some(v) = ix.get_mut(&s.hash) {
                v.retain(|&j| j as usize != i);
                if v.is_empty() {
                    ix.remove(&s.hash);
                }
            }
        }
        (s.k, s.v)
    }
    fn find_hash<Q: ?Sized + Eq>(&self, h: u64, q: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        match &self.index {
            Some(ix) => ix.get(&h)?.iter().map(|&i| i as usize).find(|&i| {
                self.slots[i].as_ref().map_or(false, |s| s.k.borrow() == q)
            }),
            None => self
                .slots
                .iter()
                .position(|s| matches!(s, Some(s) if s.hash == h && s.k.borrow() == q)),
        }
    }

    pub fn iter(&self) -> Iter<'_, K, V> {
        let mut v: Vec<(&K, &V)> = self.slots.iter().flatten().map(|s| (&s.k, &s.v)).collect();
        crate::ctl::permute(&mut v);
        Iter(v.into_iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        let mut v: Vec<(&K, &mut V)> =
            self.slots.iter_mut().flatten().map(|s| (&s.k, &mut s.v)).collect();
        crate::ctl::permute(&mut v);
        IterMut(v.into_iter())
    }
    pub fn keys(&self) -> Keys<'_, K, V> {
        Keys(self.iter())
    }
    pub fn values(&self) -> Values<'_, K, V> {
        Values(self.iter())
    }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
        ValuesMut(self.iter_mut())
    }
    pub fn into_keys(self) -> IntoKeys<K, V> {
        IntoKeys(self.into_iter())
    }
    pub fn into_values(self) -> IntoValues<K, V> {
        IntoValues(self.into_iter())
    }
    pub fn drain(&mut self) -> Drain<'_, K, V> {
        let mut v: Vec<(K, V)> = std::mem::take(&mut self.slots)
            .into_iter()
            .flatten()
            .map(|s| (s.k, s.v))
            .collect();
        self.len = 0;
        self.index = None;
        crate::ctl::permute(&mut v);
        Drain(v.into_iter(), std::marker::PhantomData)
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let mut order: Vec<usize> =
            (0..self.slots.len()).filter(|&i| self.slots[i].is_some()).collect();
        crate::ctl::permute(&mut order);
        for i in order {
            let keep = {
                let s = self.slots[i].as_mut().unwrap();
                f(&s.k, &mut s.v)
            };
            if !keep {
                self.take_slot(i);
            }
        }
    }
    pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> ExtractIf<K, V> {
        let mut order: Vec<usize> =
            (0..self.slots.len()).filter(|&i| self.slots[i].is_some()).collect();
        crate::ctl::permute(&mut order);
        let mut out = Vec::new();
        for i in order {
            let take = {
                let s = self.slots[i].as_mut().unwrap();
                f(&s.k, &mut s.v)
            };
            if take {
                out.push(self.take_slot(i));
            }
        }
        ExtractIf(out.into_iter())
    }
}

impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
    fn h<Q: ?Sized + Hash>(&self, q: &Q) -> u64 {
        crate::ctl::tick();
        self.s.hash_one(q)
    }
    fn find<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        if self.len == 0 {
            return None;
        }
        self.find_hash(self.h(q), q)
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(q).map(|i| &self.slots[i].as_ref().unwrap().v)
    }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(q).map(|i| {
            let s = self.slots[i].as_ref().unwrap();
            (&s.k, &s.v)
        })
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.find(q).map(move |i| &mut self.slots[i].as_mut().unwrap().v)
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(q).is_some()
    }
    /// As in std: an existing key is kept, its value replaced.
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let h = self.h(&k);
        match self.find_hash(h, &k) {
            Some(i) => Some(std::mem::replace(&mut self.slots[i].as_mut().unwrap().v, v)),
            None => {
                self.push_slot(h, k, v);
                None
            }
        }
    }
    pub(crate) fn replace_key(&mut self, k: K, v: V) -> Option<K> {
        let h = self.h(&k);
        match self.find_hash(h, &k) {
            Some(i) => {
                let s = self.slots[i].as_mut().unwrap();
                s.v = v;
                Some(std::mem::replace(&mut s.k, k))
            }
            None => {
                self.push_slot(h, k, v);
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove_entry(q).map(|e| e.1)
    }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let i = self.find(q)?;
        Some(self.take_slot(i))
    }
    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, S> {
        let hash = self.h(&key);
        match self.find_hash(hash, &key) {
            Some(i) => Entry::Occupied(OccupiedEntry { m: self, i }),
            None => Entry::Vacant(VacantEntry { m: self, hash, key }),
        }
    }
}

pub enum Entry<'a, K, V, S = RandomState> {
    Occupied(OccupiedEntry<'a, K, V, S>),
    Vacant(VacantEntry<'a, K, V, S>),
}
pub struct OccupiedEntry<'a, K, V, S = RandomState> {
    m: &'a mut HashMap<K, V, S>,
    i: usize,
}
pub struct VacantEntry<'a, K, V, S = RandomState> {
    m: &'a mut HashMap<K, V, S>,
    hash: u64,
    key: K,
}
impl<'a, K, V, S> Entry<'a, K, V, S> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => {
                let v = f(&e.key);
                e.insert(v)
            }
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(e) => e.key(),
            Entry::Vacant(e) => &e.key,
        }
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(e) = &mut self {
            f(e.get_mut());
        }
        self
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V, S> {
        match self {
            Entry::Occupied(mut e) => {
                e.insert(v);
                e
            }
            Entry::Vacant(e) => e.insert_entry(v),
        }
    }
}
impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
    pub fn key(&self) -> &K {
        &self.m.slots[self.i].as_ref().unwrap().k
    }
    pub fn get(&self) -> &V {
        &self.m.slots[self.i].as_ref().unwrap().v
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.m.slots[self.i].as_mut().unwrap().v
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.m.slots[self.i].as_mut().unwrap().v
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.m.take_slot(self.i).1
    }
    pub fn remove_entry(self) -> (K, V) {
        self.m.take_slot(self.i)
    }
}
impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn into_key(self) -> K {
        self.key
    }
    pub fn insert(self, v: V) -> &'a mut V {
        let i = self.m.push_slot(self.hash, self.key, v);
        &mut self.m.slots[i].as_mut().unwrap().v
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V, S> {
        let i = self.m.push_slot(self.hash, self.key, v);
        OccupiedEntry { m: self.m, i }
    }
}

pub struct Iter<'a, K, V>(std::vec::IntoIter<(&'a K, &'a V)>);
pub struct IterMut<'a, K, V>(std::vec::IntoIter<(&'a K, &'a mut V)>);
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
pub struct Values<'a, K, V>(Iter<'a, K, V>);
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
pub struct IntoIter<K, V>(std::vec::IntoIter<(K, V)>);
pub struct IntoKeys<K, V>(IntoIter<K, V>);
pub struct IntoValues<K, V>(IntoIter<K, V>);
pub struct ExtractIf<K, V>(std::vec::IntoIter<(K, V)>);
pub struct Drain<'a, K, V>(std::vec::IntoIter<(K, V)>, std::marker::PhantomData<&'a ()>);

macro_rules! it {
    ([$($g:tt)*] $t:ty, $item:ty, $map:expr) => {
        impl<$($g)*> Iterator for $t {
            type Item = $item;
            fn next(&mut self) -> Option<$item> { self.0.next().map($map) }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
        }
        impl<$($g)*> ExactSizeIterator for $t {}
        impl<$($g)*> std::iter::FusedIterator for $t {}
    };
}
it!(['a, K, V] Iter<'a, K, V>, (&'a K, &'a V), |e| e);
it!(['a, K, V] IterMut<'a, K, V>, (&'a K, &'a mut V), |e| e);
it!(['a, K, V] Keys<'a, K, V>, &'a K, |e| e.0);
it!(['a, K, V] Values<'a, K, V>, &'a V, |e| e.1);
it!(['a, K, V] ValuesMut<'a, K, V>, &'a mut V, |e| e.1);
it!([K, V] IntoIter<K, V>, (K, V), |e| e);
it!([K, V] IntoKeys<K, V>, K, |e| e.0);
it!([K, V] IntoValues<K, V>, V, |e| e.1);
it!([K, V] ExtractIf<K, V>, (K, V), |e| e);
it!(['a, K, V] Drain<'a, K, V>, (K, V), |e| e);

impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self {
        Iter(self.0.clone())
    }
}
impl<'a, K, V> Clone for Keys<'a, K, V> {
    fn clone(&self) -> Self {
        Keys(self.0.clone())
    }
}
impl<'a, K, V> Clone for Values<'a, K, V> {
    fn clone(&self) -> Self {
        Values(self.0.clone())
    }
}

impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        let mut v: Vec<(K, V)> = self.slots.into_iter().flatten().map(|s| (s.k, s.v)).collect();
        crate::ctl::permute(&mut v);
        IntoIter(v.into_iter())
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> std::iter::FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<T: IntoIterator<Item = (K, V)>>(it: T) -> Self {
        let mut m = HashMap::with_hasher(S::default());
        m.extend(it);
        m
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, it: T) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: T) {
        for (k, v) in it {
            self.insert(*k, *v);
        }
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        let slots: Vec<_> = self
            .slots
            .iter()
            .flatten()
            .map(|s| Some(Slot { hash: s.hash, k: s.k.clone(), v: s.v.clone() }))
            .collect();
        let mut m = HashMap { len: slots.len(), slots, index: None, s: self.s.clone() };
        m.reindex();
        m
    }
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.slots.iter().flatten().map(|s| (&s.k, &s.v))).finish()
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len == o.len
            && self.slots.iter().flatten().all(|s| o.get(&s.k).map_or(false, |v| *v == s.v))
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, q: &Q) -> &V {
        self.get(q).expect("no entry found for key")
    }
}
