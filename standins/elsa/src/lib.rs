//! Stand-in for `elsa`: an insert-only map that hands out references.
pub use stable_deref_trait::StableDeref;
pub mod map {
    pub use super::FrozenMap;
}
use std::borrow::Borrow;
use std::cell::{Cell, UnsafeCell};
use std::collections::hash_map::RandomState;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash};
use std::ops::Index;

pub struct FrozenMap<K, V, S = RandomState> {
    map: UnsafeCell<HashMap<K, V, S>>,
    /// elsa refuses re-entrant use from user-provided `Hash`, `Eq` or closures
    in_use: Cell<bool>,
}

impl<K: Eq + Hash, V> FrozenMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.with(|m| m.len())
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<K, V, S> FrozenMap<K, V, S> {
    fn with<R>(&self, f: impl FnOnce(&mut HashMap<K, V, S>) -> R) -> R {
        assert!(!self.in_use.replace(true));
        let r = f(unsafe { &mut *self.map.get() });
        self.in_use.set(false);
        r
    }
    pub fn into_map(self) -> HashMap<K, V, S> {
        self.map.into_inner()
    }
    pub fn as_mut(&mut self) -> &mut HashMap<K, V, S> {
        self.map.get_mut()
    }
}
impl<K: Eq + Hash, V: StableDeref, S: BuildHasher> FrozenMap<K, V, S> {
    /// keeps an existing value
    pub fn insert(&self, k: K, v: V) -> &V::Target {
        self.with(|m| {
            let p: *const V::Target = &**m.entry(k).or_insert(v);
            unsafe { &*p }
        })
    }
    pub fn insert_with_key(&self, k: K, v: impl FnOnce(&K) -> V) -> &V::Target {
        self.with(|m| {
            let p: *const V::Target = &**m.entry(k).or_insert_with_key(v);
            unsafe { &*p }
        })
    }
    pub fn insert_with(&self, k: K, v: impl FnOnce() -> V) -> &V::Target {
        self.insert_with_key(k, |_| v())
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V::Target>
    where
        K: Borrow<Q>,
    {
        self.with(|m| {
            m.get(k).map(|v| {
                let p: *const V::Target = &**v;
                unsafe { &*p }
            })
        })
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> FrozenMap<K, V, S> {
    pub fn map_get<Q: ?Sized + Hash + Eq, T>(&self, k: &Q, f: impl FnOnce(&V) -> T) -> Option<T>
    where
        K: Borrow<Q>,
    {
        self.with(|m| m.get(k).map(f))
    }
    pub fn keys_cloned(&self) -> Vec<K>
    where
        K: Clone,
    {
        self.with(|m| m.keys().cloned().collect())
    }
}
impl<K: Eq + Hash, V, S: Default> Default for FrozenMap<K, V, S> {
    fn default() -> Self {
        Self { map: UnsafeCell::new(HashMap::default()), in_use: Cell::new(false) }
    }
}
impl<K: Clone, V: Clone, S: Clone> Clone for FrozenMap<K, V, S> {
    fn clone(&self) -> Self {
        Self { map: self.with(|m| m.clone()).into(), in_use: Cell::new(false) }
    }
}
impl<K, V, S> From<HashMap<K, V, S>> for FrozenMap<K, V, S> {
    fn from(map: HashMap<K, V, S>) -> Self {
        Self { map: UnsafeCell::new(map), in_use: Cell::new(false) }
    }
}
impl<Q: ?Sized + Eq + Hash, K: Eq + Hash + Borrow<Q>, V: StableDeref, S: BuildHasher> Index<&Q> for FrozenMap<K, V, S> {
    type Output = V::Target;
    fn index(&self, k: &Q) -> &V::Target {
        self.get(k).expect("attempted to index FrozenMap with unknown key")
    }
}
