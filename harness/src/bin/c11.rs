//! C11: every key and value is dropped exactly once, also when user code panics.
//!
//! Elements are entered in a ledger when they come into being (created or cloned) and struck off by their
//! destructor. A scenario (build, use, clone, consume, partially or wholly) runs once to count the calls of user
//! code it makes, then again with a fuse: one chosen call of hash, eq, cmp, clone, drop, fmt or as_ref panics.
use frozen_collections::hashers::BridgeHasher;
use frozen_collections::*;
use fzmon::ctx::{Ctx, Stop};
use fzmon::hashers::{DynBH, KINDS, Kind};
use fzmon::keys::size;
use fzmon::model::fp;
use fzmon::rng::{Rng, mix};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Hash,
    Eq,
    Cmp,
    Clone,
    Drop,
    Fmt,
    AsRef,
    Next,
    Visit,
}
const OPS: [Op; 9] = [Op::Hash, Op::Eq, Op::Cmp, Op::Clone, Op::Drop, Op::Fmt, Op::AsRef, Op::Next, Op::Visit];

struct Fuse;

thread_local! {
    /// Times each element was dropped.
    static LEDGER: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static CALLS: [Cell<u64>; 9] = const { [const { Cell::new(0) }; 9] };
    static FUSE: Cell<Option<(Op, u64)>> = const { Cell::new(None) };
    static BLOWN: Cell<bool> = const { Cell::new(false) };
    static BAD: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    /// The values of tiny elements.
    static VALUES: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    /// Where to look for elements of no size that are still there.
    static NILS: Cell<usize> = const { Cell::new(0) };
}

fn bad(m: String) {
    BAD.with(|b| {
        let mut b = b.borrow_mut();
        if b.len() < 5 {
            b.push(m);
        }
    });
}

fn call(op: Op) {
    CALLS.with(|c| c[op as usize].set(c[op as usize].get() + 1));
    if let Some((o, n)) = FUSE.get() {
        if o == op {
            if n == 0 {
                FUSE.set(None);
                BLOWN.set(true);
                resume_unwind(Box::new(Fuse));
            }
            FUSE.set(Some((o, n - 1)));
        }
    }
}

/// How an element is laid out; the ledger knows it by its number.
trait Repr {
    const NAME: &'static str;
    fn make(id: u32, val: u64) -> Self;
    fn id(&self) -> u32;
    fn val(&self) -> u64;
    /// The number of the element being dropped.
    fn leave(&self) -> u32 {
        self.id()
    }
    /// Doesn't free its memory again.
    fn defuse(&mut self);
}
/// The boxes let memory checkers see what the ledger sees.
struct Wide {
    id: u32,
    val: Box<u64>,
}
impl Repr for Wide {
    const NAME: &'static str = "wide";
    fn make(id: u32, val: u64) -> Self { Self { id, val: Box::new(val) } }
    fn id(&self) -> u32 { self.id }
    fn val(&self) -> u64 { *self.val }
    fn defuse(&mut self) { std::mem::forget(std::mem::replace(&mut self.val, Box::new(0))) }
}
/// A pointer.
struct Thin(Box<(u32, u64)>);
impl Repr for Thin {
    const NAME: &'static str = "thin";
    fn make(id: u32, val: u64) -> Self { Self(Box::new((id, val))) }
    fn id(&self) -> u32 { self.0.0 }
    fn val(&self) -> u64 { self.0.1 }
    fn defuse(&mut self) { std::mem::forget(std::mem::replace(&mut self.0, Box::new((0, 0)))) }
}
/// Smaller than a pointer, and nowhere near the heap.
struct Tiny(u32);
impl Repr for Tiny {
    const NAME: &'static str = "tiny";
    fn make(id: u32, val: u64) -> Self {
        VALUES.with(|v| {
            let mut v = v.borrow_mut();
            v.resize(id as usize + 1, 0);
            v[id as usize] = val;
        });
        Self(id)
    }
    fn id(&self) -> u32 { self.0 }
    fn val(&self) -> u64 { VALUES.with(|v| v.borrow().get(self.0 as usize).copied().unwrap_or(0)) }
    fn defuse(&mut self) {}
}
/// Large, and of an alignment beyond the allocator's.
#[repr(align(64))]
struct Huge([u64; 20], Wide);
impl Repr for Huge {
    const NAME: &'static str = "huge";
    fn make(id: u32, val: u64) -> Self { Self([val; 20], Wide::make(id, val)) }
    fn id(&self) -> u32 { self.1.id() }
    fn val(&self) -> u64 {
        if self.0 != [self.1.val(); 20] || (&raw const *self).addr() % 64 != 0 {
            bad("a large element isn't what it was, or where it may be".into());
        }
        self.1.val()
    }
    fn defuse(&mut self) { self.1.defuse() }
}
/// Of no size: nothing tells one from another, they can only be counted.
struct Nil;
impl Repr for Nil {
    const NAME: &'static str = "nil";
    fn make(_: u32, _: u64) -> Self { NILS.set(0); Self }
    fn id(&self) -> u32 { LEDGER.with(|l| first(&l.borrow())) }
    fn val(&self) -> u64 { 0 }
    fn leave(&self) -> u32 {
        // the next that's still there
        let i = LEDGER.with(|l| { let l = l.borrow(); (NILS.get()..l.len()).find(|i| l[*i] == 0).unwrap_or(0) });
        NILS.set(i);
        i as u32
    }
    fn defuse(&mut self) {}
}
fn first(l: &[u8]) -> u32 {
    (NILS.get()..l.len()).find(|i| l[*i] == 0).unwrap_or(0) as u32
}

/// The same scenarios with elements laid out in one way or another.
macro_rules! layouts {
    ($($m:ident $r:ident),*) => {$(
        mod $m {
            use super::*;
            use super::$r as R;
            include!("../c11_body.in");
        }
    )*};
}
layouts!(wide Wide, thin Thin, tiny Tiny, huge Huge, nil Nil);

fn scenario(layout: usize, seed: u64, large: bool) -> String {
    match layout {
        0 => wide::scenario(seed, large),
        1 => thin::scenario(seed, large),
        2 => tiny::scenario(seed, large),
        3 => huge::scenario(seed, large),
        _ => nil::scenario(seed, large),
    }
}
const LAYOUTS: [&str; 5] = [Wide::NAME, Thin::NAME, Tiny::NAME, Huge::NAME, Nil::NAME];

/// Runs a scenario and balances the ledger.
fn balanced(cx: &mut Ctx, layout: usize, seed: u64, large: bool, fuse: Option<(Op, u64)>) -> [u64; 9] {
    LEDGER.with(|l| l.borrow_mut().clear());
    BAD.with(|b| b.borrow_mut().clear());
    CALLS.with(|c| c.iter().for_each(|x| x.set(0)));
    NILS.set(0);
    VALUES.with(|v| v.borrow_mut().clear());
    BLOWN.set(false);
    FUSE.set(fuse);
    let mut name = String::new();
    let r = catch_unwind(AssertUnwindSafe(|| name = scenario(layout, seed, large)));
    FUSE.set(None);
    let calls = CALLS.with(|c| std::array::from_fn(|i| c[i].get()));
    if let Err(p) = r {
        if p.downcast_ref::<Fuse>().is_none() {
            if p.downcast_ref::<Stop>().is_some() {
                resume_unwind(p);
            }
            cx.fail(format!("unexpected panic in {name} with fuse {fuse:?}"));
        }
    }
    let b = BAD.with(|b| b.borrow().clone());
    cx.check(b.is_empty(), || format!("{name} with fuse {fuse:?}: {}", b.join("; ")));
    let (born, lost) = LEDGER.with(|l| {
        let l = l.borrow();
        (l.len(), l.iter().filter(|n| **n == 0).count())
    });
    // when a destructor panics, the language and the standard library may leak what it interrupted
    let leaks_allowed = BLOWN.get() && fuse.is_some_and(|f| f.0 == Op::Drop);
    cx.check(lost == 0 || leaks_allowed, || format!("{name} with fuse {fuse:?}: {lost} of {born} elements were never dropped"));
    cx.ev("elements balanced", born as u64);
    cx.ev("scenarios", 1);
    if fuse.is_none() {
        cx.ev(&name, 1);
        cx.ev(&format!("{} elements", LAYOUTS[layout]), 1);
    }
    if BLOWN.get() {
        let (op, _) = fuse.unwrap();
        cx.ev(&format!("panic in {op:?}"), 1);
        cx.ev("panics injected", 1);
    }
    if born > 1 {
        cx.distinct(mix(fp(&name), mix(seed + layout as u64, fuse.map_or(0, |f| f.1 * 16 + f.0 as u64 + 1))));
    }
    calls
}

fn one(cx: &mut Ctx) {
    let seed = cx.rng.u64();
    let large = cx.rng.chance(1, 3);
    let layout = cx.rng.idx(LAYOUTS.len());
    cx.describe(format!("scenario {seed:x} {} large={large}", LAYOUTS[layout]));
    let calls = balanced(cx, layout, seed, large, None);
    // every call site of every kind for small scenarios, some for large ones
    for op in OPS {
        let n = calls[op as usize];
        if n == 0 {
            continue;
        }
        let all: Vec<u64> = if n <= 24 { (0..n).collect() } else { (0..16).map(|_| cx.rng.below(n)).chain([0, n - 1]).collect() };
        for k in all {
            cx.describe(format!("scenario {seed:x} {} large={large} panic in call {k} of {op:?}", LAYOUTS[layout]));
            balanced(cx, layout, seed, large, Some((op, k)));
        }
    }
}

fn main() {
    let mut cx = Ctx::from_args();
    let n = cx.n(80_000);
    for _ in 0..n {
        cx.run(one);
    }
    cx.finish();
}
