//! One object-safe interface per aspect of a collection, implemented for every collection type
//! through its own methods ([`In`]) and through the crate's traits ([`Tr`]).
use crate::iters::{BIt, Bare, Full, NoClone};
use equivalent::{Comparable, Equivalent};
use frozen_collections::hashers::BridgeHasher;
use frozen_collections::inline_maps::*;
use frozen_collections::inline_sets::*;
use frozen_collections::maps::*;
use frozen_collections::*;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};

/// The collection's own methods.
#[derive(Clone)]
pub struct In<M>(pub M);
/// The collection seen as an implementation of the traits.
#[derive(Clone)]
pub struct Tr<M>(pub M);

pub trait MapLook<K, Q: ?Sized, V> {
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, q: &Q) -> Option<&V>;
    fn get_mut(&mut self, q: &Q) -> Option<&mut V>;
    fn gkv(&self, q: &Q) -> Option<(&K, &V)>;
    fn has(&self, q: &Q) -> bool;
    /// Indexing; panics when absent.
    fn at(&self, q: &Q) -> &V;
    fn entries(&self) -> Vec<(&K, &V)>;
}

pub trait MapChange<K, Q: ?Sized, V>: MapLook<K, Q, V> {
    fn iter_mut(&mut self) -> BIt<'_, (&K, &mut V)>;
    fn values_mut(&mut self) -> BIt<'_, &mut V>;
    fn ref_mut(&mut self) -> BIt<'_, (&K, &mut V)>;
    fn disjoint(&mut self, q: &[&Q]) -> Vec<Option<&mut V>>;
    /// # Safety
    /// The keys must be disjoint.
    unsafe fn disjoint_unchecked(&mut self, q: &[&Q]) -> Vec<Option<&mut V>>;
}

pub trait MapWalk<K, V> {
    fn iter(&self) -> BIt<'_, (&K, &V)>;
    fn keys(&self) -> BIt<'_, &K>;
    fn values(&self) -> BIt<'_, &V>;
    fn by_ref(&self) -> BIt<'_, (&K, &V)>;
    fn iter_mut(&mut self) -> BIt<'_, (&K, &mut V)>;
    fn values_mut(&mut self) -> BIt<'_, &mut V>;
    fn by_mut(&mut self) -> BIt<'_, (&K, &mut V)>;
    fn into_iter(&self) -> BIt<'static, (K, V)>;
    fn into_keys(&self) -> BIt<'static, K>;
    fn into_values(&self) -> BIt<'static, V>;
    fn debugs(&mut self) -> Vec<(&'static str, String)>;
}

pub trait SetLook<T, Q: ?Sized> {
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, q: &Q) -> Option<&T>;
    fn has(&self, q: &Q) -> bool;
    fn entries(&self) -> Vec<&T>;
}

pub trait SetWalk<T> {
    fn iter(&self) -> BIt<'_, &T>;
    fn by_ref(&self) -> BIt<'_, &T>;
    fn into_iter(&self) -> BIt<'static, T>;
    fn debugs(&self) -> Vec<(&'static str, String)>;
}

/// Evaluates the body with the slice turned into an array of its length.
macro_rules! arrays {
    ($q:ident, |$a:ident| $body:expr) => {
        match $q.len() {
            0 => { let $a = [$q.first().copied(); 0].map(Option::unwrap); $body }
            1 => { let $a: [_; 1] = std::array::from_fn(|i| $q[i]); $body }
            2 => { let $a: [_; 2] = std::array::from_fn(|i| $q[i]); $body }
            3 => { let $a: [_; 3] = std::array::from_fn(|i| $q[i]); $body }
            4 => { let $a: [_; 4] = std::array::from_fn(|i| $q[i]); $body }
            5 => { let $a: [_; 5] = std::array::from_fn(|i| $q[i]); $body }
            8 => { let $a: [_; 8] = std::array::from_fn(|i| $q[i]); $body }
            17 => { let $a: [_; 17] = std::array::from_fn(|i| $q[i]); $body }
            n => panic!("no array of size {n}"),
        }
    };
}

/// Numbers of keys that [`MapChange::disjoint`] can be asked for.
pub const DISJOINT_SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 8, 17];

macro_rules! map_impls {
    ($( [$($g:tt)*] $t:ty, $k:ty, [$($lw:tt)*] [$($qw:tt)*] $ix:tt );* $(;)?) => {$(
        impl<V, Q: ?Sized, $($g)*> MapLook<$k, Q, V> for In<$t> where $($lw)* $($qw)* {
            fn len(&self) -> usize { self.0.len() }
            fn is_empty(&self) -> bool { self.0.is_empty() }
            fn get(&self, q: &Q) -> Option<&V> { self.0.get(q) }
            fn get_mut(&mut self, q: &Q) -> Option<&mut V> { self.0.get_mut(q) }
            fn gkv(&self, q: &Q) -> Option<(&$k, &V)> { self.0.get_key_value(q) }
            fn has(&self, q: &Q) -> bool { self.0.contains_key(q) }
            fn at(&self, q: &Q) -> &V { map_impls!(@ix $ix, self, q) }
            fn entries(&self) -> Vec<(&$k, &V)> { self.0.iter().collect() }
        }
        impl<V, Q: ?Sized + Eq, $($g)*> MapChange<$k, Q, V> for In<$t> where $($lw)* $($qw)* {
            fn iter_mut(&mut self) -> BIt<'_, (&$k, &mut V)> { Box::new(NoClone(self.0.iter_mut())) }
            fn values_mut(&mut self) -> BIt<'_, &mut V> { Box::new(NoClone(self.0.values_mut())) }
            fn ref_mut(&mut self) -> BIt<'_, (&$k, &mut V)> { Box::new(NoClone((&mut self.0).into_iter())) }
            fn disjoint(&mut self, q: &[&Q]) -> Vec<Option<&mut V>> {
                arrays!(q, |a| self.0.get_disjoint_mut(a).into_iter().collect())
            }
            unsafe fn disjoint_unchecked(&mut self, q: &[&Q]) -> Vec<Option<&mut V>> {
                arrays!(q, |a| unsafe { self.0.get_disjoint_unchecked_mut(a) }.into_iter().collect())
            }
        }
    )*};
    (@ix index, $s:ident, $q:ident) => { &$s.0[$q] };
    (@ix noindex, $s:ident, $q:ident) => { $s.0.get($q).expect("index should be valid") };
}

macro_rules! walk_impls {
    ($( [$($g:tt)*] $t:ty, $k:ty, [$($lw:tt)*] );* $(;)?) => {$(
        impl<V: Clone + Debug + 'static, $($g)*> MapWalk<$k, V> for In<$t> where $t: Clone, $($lw)* {
            fn iter(&self) -> BIt<'_, (&$k, &V)> { Box::new(Full(self.0.iter())) }
            fn keys(&self) -> BIt<'_, &$k> { Box::new(Full(self.0.keys())) }
            fn values(&self) -> BIt<'_, &V> { Box::new(Full(self.0.values())) }
            fn by_ref(&self) -> BIt<'_, (&$k, &V)> { Box::new(Full((&self.0).into_iter())) }
            fn iter_mut(&mut self) -> BIt<'_, (&$k, &mut V)> { Box::new(NoClone(self.0.iter_mut())) }
            fn values_mut(&mut self) -> BIt<'_, &mut V> { Box::new(NoClone(self.0.values_mut())) }
            fn by_mut(&mut self) -> BIt<'_, (&$k, &mut V)> { Box::new(NoClone((&mut self.0).into_iter())) }
            fn into_iter(&self) -> BIt<'static, ($k, V)> { Box::new(NoClone(IntoIterator::into_iter(self.0.clone()))) }
            fn into_keys(&self) -> BIt<'static, $k> { Box::new(NoClone(self.0.clone().into_keys())) }
            fn into_values(&self) -> BIt<'static, V> { Box::new(NoClone(self.0.clone().into_values())) }
            fn debugs(&mut self) -> Vec<(&'static str, String)> {
                vec![
                    ("map", format!("{:?}", self.0)),
                    ("iter", format!("{:?}", self.0.iter())),
                    ("keys", format!("{:?}", self.0.keys())),
                    ("values", format!("{:?}", self.0.values())),
                    ("iter_mut", format!("{:?}", self.0.iter_mut())),
                    ("values_mut", format!("{:?}", self.0.values_mut())),
                    ("into_iter", format!("{:?}", IntoIterator::into_iter(self.0.clone()))),
                    ("into_keys", format!("{:?}", self.0.clone().into_keys())),
                    ("into_values", format!("{:?}", self.0.clone().into_values())),
                ]
            }
        }
    )*};
}

map_impls! {
    [K, BH] FzHashMap<K, V, BH>, K, [BH: BuildHasher,] [Q: Hash + Equivalent<K>] index;
    [K, CM, H] HashMap<K, V, CM, H>, K, [CM: CollectionMagnitude,] [Q: Equivalent<K>, H: frozen_collections::Hasher<Q>] index;
    [K] ScanMap<K, V>, K, [] [Q: Equivalent<K>] index;
    [K] FzOrderedMap<K, V>, K, [] [Q: Comparable<K>] index;
    [K] EytzingerSearchMap<K, V>, K, [] [Q: Comparable<K>] index;
    [BH] FzStringMap<Box<str>, V, BH>, Box<str>, [BH: BuildHasher,] [Q: AsRef<str>] noindex;
    [K, const SZ: usize] InlineScanMap<K, V, SZ>, K, [] [Q: Equivalent<K>] index;
    [K, const SZ: usize] InlineEytzingerSearchMap<K, V, SZ>, K, [] [Q: Comparable<K>] index;
    [K, const SZ: usize, const NHS: usize, CM, H] InlineHashMap<K, V, SZ, NHS, CM, H>, K, [CM: CollectionMagnitude,] [Q: Equivalent<K>, H: frozen_collections::Hasher<Q>] index;
    [K, const SZ: usize, const NHS: usize, CM, H] InlineHashMapNoCollisions<K, V, SZ, NHS, CM, H>, K, [CM: CollectionMagnitude,] [Q: Equivalent<K>, H: frozen_collections::Hasher<Q>] index;
}

walk_impls! {
    [K: Clone + Debug + 'static, BH: BuildHasher] FzHashMap<K, V, BH>, K, [];
    [K: Clone + Debug + 'static, CM: CollectionMagnitude, H] HashMap<K, V, CM, H>, K, [];
    [K: Clone + Debug + 'static] ScanMap<K, V>, K, [];
    [K: Clone + Debug + 'static] FzOrderedMap<K, V>, K, [];
    [K: Clone + Debug + 'static] EytzingerSearchMap<K, V>, K, [];
    [K: Clone + Debug + 'static] FzScalarMap<K, V>, K, [];
    [K: Clone + Debug + 'static] DenseScalarLookupMap<K, V>, K, [K: Scalar];
    [K: Clone + Debug + 'static] SparseScalarLookupMap<K, V>, K, [K: Scalar];
    [BH: BuildHasher] FzStringMap<Box<str>, V, BH>, Box<str>, [];
    [K: Clone + Debug + 'static, const SZ: usize] InlineScanMap<K, V, SZ>, K, [];
    [K: Clone + Debug + 'static, const SZ: usize] InlineEytzingerSearchMap<K, V, SZ>, K, [];
    [K: Clone + Debug + 'static, const SZ: usize] InlineDenseScalarLookupMap<K, V, SZ>, K, [K: Scalar];
    [K: Clone + Debug + 'static, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude] InlineSparseScalarLookupMap<K, V, SZ, LTSZ, CM>, K, [];
    [K: Clone + Debug + 'static, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H] InlineHashMap<K, V, SZ, NHS, CM, H>, K, [];
    [K: Clone + Debug + 'static, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H] InlineHashMapNoCollisions<K, V, SZ, NHS, CM, H>, K, [];
}

/// The scalar ones, which take sized queries only. They are used with `Q = K`.
macro_rules! scalar_map_impls {
    ($( [$($g:tt)*] $t:ty );* $(;)?) => {$(
        impl<K: Scalar, V, $($g)*> MapLook<K, K, V> for In<$t> {
            fn len(&self) -> usize { self.0.len() }
            fn is_empty(&self) -> bool { self.0.is_empty() }
            fn get(&self, q: &K) -> Option<&V> { self.0.get(q) }
            fn get_mut(&mut self, q: &K) -> Option<&mut V> { self.0.get_mut(q) }
            fn gkv(&self, q: &K) -> Option<(&K, &V)> { self.0.get_key_value(q) }
            fn has(&self, q: &K) -> bool { self.0.contains_key(q) }
            fn at(&self, q: &K) -> &V { &self.0[q] }
            fn entries(&self) -> Vec<(&K, &V)> { self.0.iter().collect() }
        }
        impl<K: Scalar, V, $($g)*> MapChange<K, K, V> for In<$t> {
            fn iter_mut(&mut self) -> BIt<'_, (&K, &mut V)> { Box::new(NoClone(self.0.iter_mut())) }
            fn values_mut(&mut self) -> BIt<'_, &mut V> { Box::new(NoClone(self.0.values_mut())) }
            fn ref_mut(&mut self) -> BIt<'_, (&K, &mut V)> { Box::new(NoClone((&mut self.0).into_iter())) }
            fn disjoint(&mut self, q: &[&K]) -> Vec<Option<&mut V>> {
                arrays!(q, |a| self.0.get_disjoint_mut(a).into_iter().collect())
            }
            unsafe fn disjoint_unchecked(&mut self, q: &[&K]) -> Vec<Option<&mut V>> {
                arrays!(q, |a| unsafe { self.0.get_disjoint_unchecked_mut(a) }.into_iter().collect())
            }
        }
    )*};
}
scalar_map_impls! {
    [] FzScalarMap<K, V>;
    [] DenseScalarLookupMap<K, V>;
    [] SparseScalarLookupMap<K, V>;
    [const SZ: usize] InlineDenseScalarLookupMap<K, V, SZ>;
    [const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude] InlineSparseScalarLookupMap<K, V, SZ, LTSZ, CM>;
}

impl<K, Q: ?Sized, V, M: Map<K, V, Q>> MapLook<K, Q, V> for Tr<M> {
    fn len(&self) -> usize {
        Len::len(&self.0)
    }
    fn is_empty(&self) -> bool {
        Len::is_empty(&self.0)
    }
    fn get(&self, q: &Q) -> Option<&V> {
        MapQuery::get(&self.0, q)
    }
    fn get_mut(&mut self, q: &Q) -> Option<&mut V> {
        MapQuery::get_mut(&mut self.0, q)
    }
    fn gkv(&self, q: &Q) -> Option<(&K, &V)> {
        MapExtras::get_key_value(&self.0, q)
    }
    fn has(&self, q: &Q) -> bool {
        MapQuery::contains_key(&self.0, q)
    }
    fn at(&self, q: &Q) -> &V {
        MapQuery::get(&self.0, q).expect("index should be valid")
    }
    fn entries(&self) -> Vec<(&K, &V)> {
        MapIteration::iter(&self.0).collect()
    }
}

impl<K: 'static, Q: ?Sized + Eq, V: 'static, M: Map<K, V, Q>> MapChange<K, Q, V> for Tr<M> {
    fn iter_mut(&mut self) -> BIt<'_, (&K, &mut V)> {
        Box::new(Bare(MapIteration::iter_mut(&mut self.0)))
    }
    fn values_mut(&mut self) -> BIt<'_, &mut V> {
        Box::new(Bare(MapIteration::values_mut(&mut self.0)))
    }
    fn ref_mut(&mut self) -> BIt<'_, (&K, &mut V)> {
        Box::new(Bare(MapIteration::iter_mut(&mut self.0)))
    }
    fn disjoint(&mut self, q: &[&Q]) -> Vec<Option<&mut V>> {
        arrays!(q, |a| MapExtras::<K, V, Q>::get_disjoint_mut(&mut self.0, a).into_iter().collect())
    }
    unsafe fn disjoint_unchecked(&mut self, q: &[&Q]) -> Vec<Option<&mut V>> {
        arrays!(q, |a| unsafe { MapExtras::<K, V, Q>::get_disjoint_unchecked_mut(&mut self.0, a) }.into_iter().collect())
    }
}

impl<K: 'static, V: 'static, M: MapIteration<K, V> + Clone> MapWalk<K, V> for Tr<M>
where
    M::IntoIter: 'static,
    M::IntoKeyIterator: 'static,
    M::IntoValueIterator: 'static,
{
    fn iter(&self) -> BIt<'_, (&K, &V)> {
        Box::new(Bare(MapIteration::iter(&self.0)))
    }
    fn keys(&self) -> BIt<'_, &K> {
        Box::new(Bare(MapIteration::keys(&self.0)))
    }
    fn values(&self) -> BIt<'_, &V> {
        Box::new(Bare(MapIteration::values(&self.0)))
    }
    fn by_ref(&self) -> BIt<'_, (&K, &V)> {
        Box::new(Bare(MapIteration::iter(&self.0)))
    }
    fn iter_mut(&mut self) -> BIt<'_, (&K, &mut V)> {
        Box::new(Bare(MapIteration::iter_mut(&mut self.0)))
    }
    fn values_mut(&mut self) -> BIt<'_, &mut V> {
        Box::new(Bare(MapIteration::values_mut(&mut self.0)))
    }
    fn by_mut(&mut self) -> BIt<'_, (&K, &mut V)> {
        Box::new(Bare(MapIteration::iter_mut(&mut self.0)))
    }
    fn into_iter(&self) -> BIt<'static, (K, V)> {
        Box::new(Bare(IntoIterator::into_iter(self.0.clone())))
    }
    fn into_keys(&self) -> BIt<'static, K> {
        Box::new(Bare(MapIteration::into_keys(self.0.clone())))
    }
    fn into_values(&self) -> BIt<'static, V> {
        Box::new(Bare(MapIteration::into_values(self.0.clone())))
    }
    fn debugs(&mut self) -> Vec<(&'static str, String)> {
        vec![]
    }
}

macro_rules! set_impls {
    ($( [$($g:tt)*] $t:ty, $k:ty, [$($qw:tt)*] );* $(;)?) => {$(
        impl<Q: ?Sized, $($g)*> SetLook<$k, Q> for In<$t> where $($qw)* {
            fn len(&self) -> usize { self.0.len() }
            fn is_empty(&self) -> bool { self.0.is_empty() }
            fn get(&self, q: &Q) -> Option<&$k> { self.0.get(q) }
            fn has(&self, q: &Q) -> bool { self.0.contains(q) }
            fn entries(&self) -> Vec<&$k> { self.0.iter().collect() }
        }
    )*};
}
macro_rules! set_walk_impls {
    ($( [$($g:tt)*] $t:ty, $k:ty, [$($qw:tt)*] );* $(;)?) => {$(
        impl<$($g)*> SetWalk<$k> for In<$t> where $t: Clone, $k: Debug + Clone + 'static, $($qw)* {
            fn iter(&self) -> BIt<'_, &$k> { Box::new(Full(self.0.iter())) }
            fn by_ref(&self) -> BIt<'_, &$k> { Box::new(Full((&self.0).into_iter())) }
            fn into_iter(&self) -> BIt<'static, $k> { Box::new(NoClone(IntoIterator::into_iter(self.0.clone()))) }
            fn debugs(&self) -> Vec<(&'static str, String)> {
                vec![
                    ("set", format!("{:?}", self.0)),
                    ("iter", format!("{:?}", self.0.iter())),
                    ("into_iter", format!("{:?}", IntoIterator::into_iter(self.0.clone()))),
                ]
            }
        }
    )*};
}

set_impls! {
    [T, BH] FzHashSet<T, BH>, T, [BH: BuildHasher, Q: Hash + Equivalent<T>];
    [T] FzOrderedSet<T>, T, [Q: Comparable<T>];
    [BH] FzStringSet<Box<str>, BH>, Box<str>, [BH: BuildHasher, Q: AsRef<str>];
    [T, const SZ: usize] InlineScanSet<T, SZ>, T, [Q: Equivalent<T>];
    [T, const SZ: usize] InlineEytzingerSearchSet<T, SZ>, T, [Q: Comparable<T>];
    [T, const SZ: usize, const NHS: usize, CM, H] InlineHashSet<T, SZ, NHS, CM, H>, T, [CM: CollectionMagnitude, Q: Equivalent<T>, H: frozen_collections::Hasher<Q>];
    [T, const SZ: usize, const NHS: usize, CM, H] InlineHashSetNoCollisions<T, SZ, NHS, CM, H>, T, [CM: CollectionMagnitude, Q: Equivalent<T>, H: frozen_collections::Hasher<Q>];
}

macro_rules! scalar_set_impls {
    ($( [$($g:tt)*] $t:ty );* $(;)?) => {$(
        impl<T: Scalar, $($g)*> SetLook<T, T> for In<$t> {
            fn len(&self) -> usize { self.0.len() }
            fn is_empty(&self) -> bool { self.0.is_empty() }
            fn get(&self, q: &T) -> Option<&T> { self.0.get(q) }
            fn has(&self, q: &T) -> bool { self.0.contains(q) }
            fn entries(&self) -> Vec<&T> { self.0.iter().collect() }
        }
    )*};
}
scalar_set_impls! {
    [] FzScalarSet<T>;
    [const SZ: usize] InlineDenseScalarLookupSet<T, SZ>;
    [const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude] InlineSparseScalarLookupSet<T, SZ, LTSZ, CM>;
}

set_walk_impls! {
    [T, BH] FzHashSet<T, BH>, T, [BH: BuildHasher];
    [T] FzOrderedSet<T>, T, [];
    [T] FzScalarSet<T>, T, [];
    [BH] FzStringSet<Box<str>, BH>, Box<str>, [];
    [T, const SZ: usize] InlineScanSet<T, SZ>, T, [];
    [T, const SZ: usize] InlineEytzingerSearchSet<T, SZ>, T, [];
    [T, const SZ: usize] InlineDenseScalarLookupSet<T, SZ>, T, [T: Scalar];
    [T, const SZ: usize, const LTSZ: usize, CM] InlineSparseScalarLookupSet<T, SZ, LTSZ, CM>, T, [CM: CollectionMagnitude, T: Scalar];
    [T, const SZ: usize, const NHS: usize, CM, H] InlineHashSet<T, SZ, NHS, CM, H>, T, [CM: CollectionMagnitude, H: frozen_collections::Hasher<T>];
    [T, const SZ: usize, const NHS: usize, CM, H] InlineHashSetNoCollisions<T, SZ, NHS, CM, H>, T, [CM: CollectionMagnitude, H: frozen_collections::Hasher<T>];
}

impl<T, Q: ?Sized, S: Set<T, Q>> SetLook<T, Q> for Tr<S> {
    fn len(&self) -> usize {
        Len::len(&self.0)
    }
    fn is_empty(&self) -> bool {
        Len::is_empty(&self.0)
    }
    fn get(&self, q: &Q) -> Option<&T> {
        SetExtras::get(&self.0, q)
    }
    fn has(&self, q: &Q) -> bool {
        SetQuery::contains(&self.0, q)
    }
    fn entries(&self) -> Vec<&T> {
        SetIteration::iter(&self.0).collect()
    }
}

impl<T: 'static, S: SetIteration<T> + Clone> SetWalk<T> for Tr<S>
where
    S::IntoIter: 'static,
{
    fn iter(&self) -> BIt<'_, &T> {
        Box::new(Bare(SetIteration::iter(&self.0)))
    }
    fn by_ref(&self) -> BIt<'_, &T> {
        Box::new(Bare(SetIteration::iter(&self.0)))
    }
    fn into_iter(&self) -> BIt<'static, T> {
        Box::new(Bare(IntoIterator::into_iter(self.0.clone())))
    }
    fn debugs(&self) -> Vec<(&'static str, String)> {
        vec![]
    }
}

/// A hasher usable with the magnitude-generic hash map.
pub type Bridge<BH> = BridgeHasher<BH>;
