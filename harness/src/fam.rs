//! Families of collections built from one list of entries, and the query forms of keys.
use crate::keys::*;

/// Keys that can be looked up as `Q`.
pub trait Probe<Q: ?Sized>: Key {
    fn with<R>(&self, f: impl FnOnce(&Q) -> R) -> R;
    fn with_many<R>(keys: &[Self], f: impl FnOnce(&[&Q]) -> R) -> R;
}

impl<K: Key> Probe<K> for K {
    fn with<R>(&self, f: impl FnOnce(&K) -> R) -> R {
        f(self)
    }
    fn with_many<R>(keys: &[Self], f: impl FnOnce(&[&K]) -> R) -> R {
        let v: Vec<&K> = keys.iter().collect();
        f(&v)
    }
}

macro_rules! deref_probe {
    ($($k:ty => $q:ty),*) => {$(
        impl Probe<$q> for $k {
            fn with<R>(&self, f: impl FnOnce(&$q) -> R) -> R {
                f(self)
            }
            fn with_many<R>(keys: &[Self], f: impl FnOnce(&[&$q]) -> R) -> R {
                let v: Vec<&$q> = keys.iter().map(|k| &**k).collect();
                f(&v)
            }
        }
    )*};
}
deref_probe!(String => str, Box<str> => str, Vec<u8> => [u8], &'static str => str);

impl Probe<String> for Box<str> {
    fn with<R>(&self, f: impl FnOnce(&String) -> R) -> R {
        f(&self.to_string())
    }
    fn with_many<R>(keys: &[Self], f: impl FnOnce(&[&String]) -> R) -> R {
        let v: Vec<String> = keys.iter().map(|k| k.to_string()).collect();
        let v: Vec<&String> = v.iter().collect();
        f(&v)
    }
}

impl Probe<PtRef> for Pt {
    fn with<R>(&self, f: impl FnOnce(&PtRef) -> R) -> R {
        f(&PtRef { a: self.a, b: *self.b })
    }
    fn with_many<R>(keys: &[Self], f: impl FnOnce(&[&PtRef]) -> R) -> R {
        let v: Vec<PtRef> = keys.iter().map(|k| PtRef { a: k.a, b: *k.b }).collect();
        let v: Vec<&PtRef> = v.iter().collect();
        f(&v)
    }
}

/// Hash-keyed maps: `hash_maps!(K, V, entries, hasher, distinct, |name, m| { .. })`.
#[macro_export]
macro_rules! hash_maps {
    ($K:ty, $V:ty, $e:expr, $bh:expr, $d:expr, |$n:ident, $m:ident| $body:block) => {{
        use frozen_collections::hashers::BridgeHasher;
        use frozen_collections::maps;
        { let $n = "FzHashMap"; let $m = frozen_collections::FzHashMap::<$K, $V, _>::with_hasher($e.clone(), $bh.clone()); $body }
        { let $n = "FzHashMap(default hasher)"; let $m = frozen_collections::FzHashMap::<$K, $V>::new($e.clone()); $body }
        {
            let $n = "HashMap<large>";
            let $m = maps::HashMap::<$K, $V, frozen_collections::LargeCollection, _>::with_hasher($e.clone(), BridgeHasher::new($bh.clone())).expect("large map");
            $body
        }
        if $d <= 65535 {
            let $n = "HashMap<medium>";
            if let Ok($m) = maps::HashMap::<$K, $V, frozen_collections::MediumCollection, _>::with_hasher($e.clone(), BridgeHasher::new($bh.clone())) $body
        }
        if $d <= 255 {
            let $n = "HashMap<small>";
            if let Ok($m) = maps::HashMap::<$K, $V, frozen_collections::SmallCollection, _>::with_hasher($e.clone(), BridgeHasher::new($bh.clone())) $body
        }
    }};
}

#[macro_export]
macro_rules! ord_maps {
    ($K:ty, $V:ty, $e:expr, |$n:ident, $m:ident| $body:block) => {{
        use frozen_collections::maps;
        { let $n = "FzOrderedMap"; let $m = frozen_collections::FzOrderedMap::<$K, $V>::new($e.clone()); $body }
        { let $n = "EytzingerSearchMap"; let $m = maps::EytzingerSearchMap::<$K, $V>::new($e.clone()); $body }
        if $e.len() <= 300 { let $n = "ScanMap"; let $m = maps::ScanMap::<$K, $V>::new($e.clone()); $body }
    }};
}

/// `span`: distance between the extreme keys; the sparse map allocates that much.
#[macro_export]
macro_rules! scalar_maps {
    ($K:ty, $V:ty, $e:expr, |$n:ident, $m:ident| $body:block) => {{
        use frozen_collections::Scalar as _;
        use frozen_collections::maps;
        { let $n = "FzScalarMap"; let $m = frozen_collections::FzScalarMap::<$K, $V>::new($e.clone()); $body }
        if let Ok($m) = maps::DenseScalarLookupMap::<$K, $V>::new($e.clone()) { let $n = "DenseScalarLookupMap"; $body }
        let lo = $e.iter().map(|x| x.0.index()).min().unwrap_or(0);
        let hi = $e.iter().map(|x| x.0.index()).max().unwrap_or(0);
        if hi - lo < if cfg!(miri) { 300 } else { 100_000 } { let $n = "SparseScalarLookupMap"; let $m = maps::SparseScalarLookupMap::<$K, $V>::new($e.clone()); $body }
    }};
}

#[macro_export]
macro_rules! string_maps {
    ($V:ty, $e:expr, $bh:expr, |$n:ident, $m:ident| $body:block) => {{
        { let $n = "FzStringMap"; let $m = frozen_collections::FzStringMap::<Box<str>, $V, _>::with_hasher($e.clone(), $bh.clone()); $body }
        { let $n = "FzStringMap(default hasher)"; let $m = frozen_collections::FzStringMap::<Box<str>, $V>::new($e.clone()); $body }
    }};
}

#[macro_export]
macro_rules! hash_sets {
    ($K:ty, $e:expr, $bh:expr, |$n:ident, $m:ident| $body:block) => {{
        { let $n = "FzHashSet"; let $m = frozen_collections::FzHashSet::<$K, _>::with_hasher($e.clone(), $bh.clone()); $body }
        { let $n = "FzHashSet(default hasher)"; let $m = frozen_collections::FzHashSet::<$K>::new($e.clone()); $body }
    }};
}
#[macro_export]
macro_rules! ord_sets {
    ($K:ty, $e:expr, |$n:ident, $m:ident| $body:block) => {{
        { let $n = "FzOrderedSet"; let $m = frozen_collections::FzOrderedSet::<$K>::new($e.clone()); $body }
    }};
}
#[macro_export]
macro_rules! scalar_sets {
    ($K:ty, $e:expr, |$n:ident, $m:ident| $body:block) => {{
        { let $n = "FzScalarSet"; let $m = frozen_collections::FzScalarSet::<$K>::new($e.clone()); $body }
    }};
}
#[macro_export]
macro_rules! string_sets {
    ($e:expr, $bh:expr, |$n:ident, $m:ident| $body:block) => {{
        { let $n = "FzStringSet"; let $m = frozen_collections::FzStringSet::<Box<str>, _>::with_hasher($e.clone(), $bh.clone()); $body }
        { let $n = "FzStringSet(default hasher)"; let $m = frozen_collections::FzStringSet::<Box<str>>::new($e.clone()); $body }
    }};
}

/// Runs `$case!(K, Q, V)` for one of the hash and ordered key types.
#[macro_export]
macro_rules! dispatch_keys {
    ($i:expr, $case:ident) => {{
        use $crate::keys::*;
        match $i % 14 {
            0 => $case!(u64, u64, u64),
            1 => $case!(String, str, u64),
            2 => $case!(String, String, Box<u64>),
            3 => $case!(Box<str>, str, String),
            4 => $case!(Vec<u8>, [u8], u64),
            5 => $case!(Pt, PtRef, u64),
            // its comparisons take too long interpreted
            6 if !FOREIGN => $case!(Ci, Ci, u64),
            7 => $case!(Coarse, Coarse, u64),
            8 => $case!(Fat, Fat, (u8, [u64; 4])),
            9 => $case!((), (), u64),
            10 => $case!(char, char, ()),
            11 => $case!(u128, u128, u64),
            12 => $case!(i32, i32, u64),
            _ => $case!(u8, u8, u64),
        }
    }};
}

/// Runs `$case!(K)` for one of the scalar types.
#[macro_export]
macro_rules! dispatch_scalars {
    ($i:expr, $case:ident) => {{
        use std::num::*;
        match $i % 20 {
            0 => $case!(u8),
            1 => $case!(i8),
            2 => $case!(u16),
            3 => $case!(i16),
            4 => $case!(u32),
            5 => $case!(i32),
            6 => $case!($crate::keys::WideU),
            7 => $case!($crate::keys::WideI),
            8 => $case!(usize),
            9 => $case!(isize),
            10 => $case!(NonZeroU8),
            11 => $case!(NonZeroI8),
            12 => $case!(NonZeroU16),
            13 => $case!(NonZeroI16),
            14 => $case!(NonZeroU32),
            15 => $case!(NonZeroI32),
            16 => $case!($crate::keys::WideNzU),
            17 => $case!($crate::keys::WideNzI),
            18 => $case!(NonZeroUsize),
            _ => $case!(NonZeroIsize),
        }
    }};
}
