//! C13: which collections may be sent to and shared between threads, as the compiler sees it.
use frozen_collections::hashers::BridgeHasher;
use frozen_collections::inline_maps::*;
use frozen_collections::inline_sets::*;
use frozen_collections::{maps, sets, *};
use fzmon::ctx::Ctx;
use fzmon::hashers::DynBH;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

/// Whether a type implements the marker traits, as values: the inherent constant is chosen when its bound holds.
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct SendProbe<T: ?Sized>(PhantomData<T>);
struct SyncProbe<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for SendProbe<T> {}
impl<T: ?Sized> No for SyncProbe<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> SendProbe<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> SyncProbe<T> {
    const SYNC: bool = true;
}

/// May be shared but not sent.
struct SharedOnly(#[allow(dead_code)] *const u8);
unsafe impl Sync for SharedOnly {}

type Plain = u64;
type SendOnly = Cell<u64>;
type Neither = Rc<u64>;

fn expect(cx: &mut Ctx, ty: &str, got: (bool, bool), want: (bool, bool)) {
    cx.case(|_| ty.to_string(), |cx| {
        cx.check(got == want, || format!("{ty}: may be sent to another thread: {}, shared: {}; expected {}, {}", got.0, got.1, want.0, want.1));
        cx.ev("types", 1);
        cx.distinct(fzmon::model::fp(&ty));
    });
}

macro_rules! is {
    ($cx:ident, $t:ty, $want:expr) => {
        expect($cx, stringify!($t), (<SendProbe<$t>>::SEND, <SyncProbe<$t>>::SYNC), $want)
    };
}

macro_rules! contents {
    ($cx:ident, $v:ty, $want:expr) => {{
        let want = $want;
        // keys
        is!($cx, FzHashMap<$v, u64>, want);
        is!($cx, FzHashMap<$v, u64, DynBH>, want);
        is!($cx, FzOrderedMap<$v, u64>, want);
        is!($cx, FzHashSet<$v>, want);
        is!($cx, FzOrderedSet<$v>, want);
        is!($cx, maps::ScanMap<$v, u64>, want);
        is!($cx, maps::EytzingerSearchMap<$v, u64>, want);
        is!($cx, maps::HashMap<$v, u64, SmallCollection, BridgeHasher<DynBH>>, want);
        is!($cx, InlineScanMap<$v, u64, 4>, want);
        is!($cx, InlineEytzingerSearchMap<$v, u64, 4>, want);
        is!($cx, InlineHashMap<$v, u64, 4, 8, SmallCollection, BridgeHasher<DynBH>>, want);
        is!($cx, InlineHashMapNoCollisions<$v, u64, 4, 8, SmallCollection, BridgeHasher<DynBH>>, want);
        is!($cx, InlineScanSet<$v, 4>, want);
        is!($cx, InlineEytzingerSearchSet<$v, 4>, want);
        is!($cx, InlineHashSet<$v, 4, 8, SmallCollection, BridgeHasher<DynBH>>, want);
        is!($cx, InlineHashSetNoCollisions<$v, 4, 8, SmallCollection, BridgeHasher<DynBH>>, want);
        // values
        is!($cx, FzHashMap<u64, $v>, want);
        is!($cx, FzHashMap<u64, $v, DynBH>, want);
        is!($cx, FzOrderedMap<u64, $v>, want);
        is!($cx, FzScalarMap<u64, $v>, want);
        is!($cx, FzStringMap<Box<str>, $v>, want);
        is!($cx, FzStringMap<Box<str>, $v, DynBH>, want);
        is!($cx, maps::ScanMap<u64, $v>, want);
        is!($cx, maps::EytzingerSearchMap<u64, $v>, want);
        is!($cx, maps::DenseScalarLookupMap<u64, $v>, want);
        is!($cx, maps::SparseScalarLookupMap<u64, $v>, want);
        is!($cx, maps::HashMap<u64, $v, LargeCollection, BridgeHasher<DynBH>>, want);
        is!($cx, InlineScanMap<u64, $v, 4>, want);
        is!($cx, InlineEytzingerSearchMap<u64, $v, 4>, want);
        is!($cx, InlineDenseScalarLookupMap<u64, $v, 4>, want);
        is!($cx, InlineSparseScalarLookupMap<u64, $v, 4, 10, SmallCollection>, want);
        is!($cx, InlineHashMap<u64, $v, 4, 8, SmallCollection, BridgeHasher<DynBH>>, want);
        is!($cx, InlineHashMapNoCollisions<u64, $v, 4, 8, SmallCollection, BridgeHasher<DynBH>>, want);
        // what shared references to the collections hand out
        let shared = (want.1, want.1);
        is!($cx, maps::Iter<'static, $v, u64>, shared);
        is!($cx, maps::Iter<'static, u64, $v>, shared);
        is!($cx, maps::Keys<'static, $v, u64>, shared);
        is!($cx, maps::Values<'static, u64, $v>, shared);
        is!($cx, sets::Iter<'static, $v>, shared);
        // and what taking them apart does
        is!($cx, maps::IntoIter<$v, u64>, want);
        is!($cx, maps::IntoIter<u64, $v>, want);
        is!($cx, maps::IntoKeys<$v, u64>, want);
        is!($cx, maps::IntoValues<u64, $v>, want);
        is!($cx, sets::IntoIter<$v>, want);
    }};
}

fn main() {
    let mut cx = Ctx::from_args();
    let cx_ = &mut cx;
    contents!(cx_, Plain, (true, true));
    contents!(cx_, SendOnly, (true, false));
    contents!(cx_, SharedOnly, (false, true));
    contents!(cx_, Neither, (false, false));
    is!(cx_, FzStringMap<Box<str>, u64>, (true, true));
    is!(cx_, FzStringSet<Box<str>>, (true, true));
    is!(cx_, FzScalarMap<i8, String>, (true, true));
    is!(cx_, FzScalarSet<i8>, (true, true));
    is!(cx_, InlineDenseScalarLookupSet<u8, 4>, (true, true));
    is!(cx_, InlineSparseScalarLookupSet<u8, 4, 10, SmallCollection>, (true, true));
    is!(cx_, maps::IterMut<'static, u64, String>, (true, true));
    is!(cx_, maps::ValuesMut<'static, u64, String>, (true, true));
    is!(cx_, sets::Union<'static, FzHashSet<u64>, FzOrderedSet<u64>, u64>, (true, true));
    cx.finish();
}
