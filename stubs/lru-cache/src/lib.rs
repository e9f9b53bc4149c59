//! Stand-in for lru-cache 0.1: same interface; the explorer can lower the capacity, so that evictions
//! are reached within short histories.
use std::borrow::Borrow;
use std::cell::Cell;
use std::hash::{BuildHasher, Hash};
use std::collections::hash_map::RandomState;
use std::marker::PhantomData;
thread_local! { static CAP: Cell<usize> = const { Cell::new(usize::MAX) }; }
/// Upper bound of the capacity of the caches this thread creates from now on.
pub fn mc_set_max_capacity(n: usize) { CAP.with(|c| c.set(n)); }

pub struct LruCache<K, V, S = RandomState> { items: Vec<(K, V)>, max: usize, p: PhantomData<S> }
impl<K: Eq + Hash, V> LruCache<K, V, RandomState> {
    pub fn new(capacity: usize) -> Self { LruCache { items: vec![], max: capacity.min(CAP.with(|c| c.get())), p: PhantomData } }
}
impl<K: Eq + Hash, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(capacity: usize, _h: S) -> Self { LruCache { items: vec![], max: capacity.min(CAP.with(|c| c.get())), p: PhantomData } }
    fn touch<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool where K: Borrow<Q> {
        match self.items.iter().position(|(x, _)| x.borrow() == k) {
            Some(i) => { let e = self.items.remove(i); self.items.push(e); true }
            None => false,
        }
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.items.iter().any(|(x, _)| x.borrow() == k) }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let old = self.items.iter().position(|(x, _)| *x == k).map(|i| self.items.remove(i).1);
        self.items.push((k, v));
        while self.items.len() > self.max { self.items.remove(0); }
        old
    }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        if self.touch(k) { self.items.last_mut().map(|e| &mut e.1) } else { None }
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        self.items.iter().position(|(x, _)| x.borrow() == k).map(|i| self.items.remove(i).1)
    }
    pub fn capacity(&self) -> usize { self.max }
    pub fn set_capacity(&mut self, n: usize) { self.max = n; while self.items.len() > n { self.items.remove(0); } }
    pub fn remove_lru(&mut self) -> Option<(K, V)> { if self.items.is_empty() { None } else { Some(self.items.remove(0)) } }
    pub fn len(&self) -> usize { self.items.len() }
    pub fn is_empty(&self) -> bool { self.items.is_empty() }
    pub fn clear(&mut self) { self.items.clear() }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.items.iter_mut().map(|(k, v)| (&*k, v)) }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.items.iter().map(|(k, v)| (k, v)) }
}
