use crate::map::{HashMap, RandomState};
use std::borrow::Borrow;
use std::fmt;
use std::hash::{BuildHasher, Hash};
use std::ops::{BitAnd, BitOr, BitXor, Sub};

pub struct HashSet<T, S = RandomState> {
    m: HashMap<T, (), S>,
}

impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self {
        HashSet { m: HashMap::new() }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<T, S> HashSet<T, S> {
    pub fn with_hasher(s: S) -> Self {
        HashSet { m: HashMap::with_hasher(s) }
    }
    pub fn with_capacity_and_hasher(_: usize, s: S) -> Self {
        Self::with_hasher(s)
    }
    pub fn capacity(&self) -> usize {
        self.m.capacity()
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn hasher(&self) -> &S {
        self.m.hasher()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn iter(&self) -> Iter<'_, T> {
        let v: Vec<&T> = self.m.iter().map(|(k, _)| k).collect();
        Iter(v.into_iter())
    }
    pub fn drain(&mut self) -> Drain<'_, T> {
        let v: Vec<T> = self.m.drain().map(|e| e.0).collect();
        Drain(v.into_iter(), std::marker::PhantomData)
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        self.m.retain(|k, _| f(k))
    }
    pub fn extract_if<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> IntoIter<T> {
        let v: Vec<T> = self.m.extract_if(|k, _| f(k)).map(|e| e.0).collect();
        IntoIter(v.into_iter())
    }
}
impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.m.contains_key(q)
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        self.m.get_key_value(q).map(|e| e.0)
    }
    /// As in std: an equal element already present is kept.
    pub fn insert(&mut self, t: T) -> bool {
        self.m.insert(t, ()).is_none()
    }
    pub fn replace(&mut self, t: T) -> Option<T> {
        self.m.replace_key(t, ())
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.m.remove(q).is_some()
    }
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        self.m.remove_entry(q).map(|e| e.0)
    }
    pub fn is_subset(&self, o: &HashSet<T, S>) -> bool {
        self.len() <= o.len() && self.iter().all(|t| o.contains(t))
    }
    pub fn is_superset(&self, o: &HashSet<T, S>) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint(&self, o: &HashSet<T, S>) -> bool {
        self.iter().all(|t| !o.contains(t))
    }
    pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> Difference<'a, T> {
        Iter(self.iter().filter(|t| !o.contains(*t)).collect::<Vec<_>>().into_iter())
    }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> Intersection<'a, T> {
        Iter(self.iter().filter(|t| o.contains(*t)).collect::<Vec<_>>().into_iter())
    }
    pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> Union<'a, T> {
        let mut v: Vec<&'a T> = self.iter().collect();
        v.extend(o.iter().filter(|t| !self.contains(*t)));
        Iter(v.into_iter())
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> SymmetricDifference<'a, T> {
        let mut v: Vec<&'a T> = self.iter().filter(|t| !o.contains(*t)).collect();
        v.extend(o.iter().filter(|t| !self.contains(*t)));
        Iter(v.into_iter())
    }
}

pub struct Iter<'a, T>(std::vec::IntoIter<&'a T>);
pub struct IntoIter<T>(std::vec::IntoIter<T>);
pub struct Drain<'a, T>(std::vec::IntoIter<T>, std::marker::PhantomData<&'a ()>);
pub type Union<'a, T> = Iter<'a, T>;
pub type Intersection<'a, T> = Iter<'a, T>;
pub type Difference<'a, T> = Iter<'a, T>;
pub type SymmetricDifference<'a, T> = Iter<'a, T>;

impl<'a, T> Clone for Iter<'a, T> {
    fn clone(&self) -> Self {
        Iter(self.0.clone())
    }
}
macro_rules! it {
    ([$($g:tt)*] $t:ty, $item:ty) => {
        impl<$($g)*> Iterator for $t {
            type Item = $item;
            fn next(&mut self) -> Option<$item> { self.0.next() }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
        }
        impl<$($g)*> ExactSizeIterator for $t {}
        impl<$($g)*> std::iter::FusedIterator for $t {}
    };
}
it!(['a, T] Iter<'a, T>, &'a T);
it!([T] IntoIter<T>, T);
it!(['a, T] Drain<'a, T>, T);

impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        let v: Vec<T> = self.m.into_iter().map(|e| e.0).collect();
        IntoIter(v.into_iter())
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T: Eq + Hash, S: BuildHasher + Default> std::iter::FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut s = HashSet::with_hasher(S::default());
        s.extend(it);
        s
    }
}
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.insert(t);
        }
    }
}
impl<'a, T: 'a + Eq + Hash + Copy, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for t in it {
            self.insert(*t);
        }
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T, S: Default> Default for HashSet<T, S> {
    fn default() -> Self {
        HashSet { m: HashMap::default() }
    }
}
impl<T: Clone, S: Clone> Clone for HashSet<T, S> {
    fn clone(&self) -> Self {
        HashSet { m: self.m.clone() }
    }
}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|t| o.contains(t))
    }
}
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}

macro_rules! op {
    ($tr:ident, $f:ident, $m:ident) => {
        impl<'a, 'b, T: Eq + Hash + Clone, S: BuildHasher + Default> $tr<&'b HashSet<T, S>> for &'a HashSet<T, S> {
            type Output = HashSet<T, S>;
            fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> {
                self.$m(o).cloned().collect()
            }
        }
    };
}
op!(BitOr, bitor, union);
op!(BitAnd, bitand, intersection);
op!(BitXor, bitxor, symmetric_difference);
op!(Sub, sub, difference);
