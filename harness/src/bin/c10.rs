//! C10: no safe use is undefined behaviour.
//!
//! Every operation is used on collections of elements of awkward layouts, and of elements whose hashing, equality,
//! ordering, indexing and string forms are inconsistent or panic. What it does is of no interest here, only that it
//! is defined: the instruments (the precondition checks of the standard library, AddressSanitizer, Miri) watch for
//! that, and references handed out at the same time must not overlap.
use equivalent::{Comparable, Equivalent};
use frozen_collections::*;
use fzmon::adapt::*;
use fzmon::ctx::{Ctx, panics};
use fzmon::fam::Probe;
use fzmon::hashers::DynBH;
use fzmon::keys::*;
use fzmon::rng::{Rng, mix};
use fzmon::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};

// -- values of awkward layouts -------------------------------------------------------------

trait Touch: Clone + Debug + PartialEq + 'static {
    fn make(i: u64) -> Self;
    /// Reads all of it.
    fn look(&self) -> u64;
    /// Writes all of it.
    fn touch(&mut self, i: u64) {
        *self = Self::make(i);
    }
}

#[derive(Clone, Debug, PartialEq)]
#[repr(align(128))]
struct Wide(u8);
#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
struct Nothing;
#[derive(Clone, Debug, PartialEq)]
struct Padded(u8, u64, u16);
#[derive(Clone, Debug, PartialEq)]
struct Huge([u64; 70]);

macro_rules! touch {
    ($($t:ty, |$i:ident| $make:expr, |$x:ident| $look:expr;)*) => {$(
        impl Touch for $t {
            fn make($i: u64) -> Self { let _ = $i; $make }
            fn look(&self) -> u64 { let $x = self; $look }
        }
    )*};
}
touch! {
    (), |i| (), |_x| 0;
    u8, |i| i as u8, |x| u64::from(*x);
    u64, |i| i, |x| *x;
    String, |i| i.to_string(), |x| x.bytes().map(u64::from).sum();
    Box<u64>, |i| Box::new(i), |x| **x;
    Wide, |i| Wide(i as u8), |x| u64::from(x.0);
    Nothing, |i| Nothing, |_x| 0;
    Padded, |i| Padded(i as u8, i, 7), |x| u64::from(x.0) + x.1 + u64::from(x.2);
    Huge, |i| Huge([i; 70]), |x| x.0.iter().fold(0, |a, b| a ^ b);
    Option<Box<u32>>, |i| (i % 2 == 0).then(|| Box::new(i as u32)), |x| x.as_ref().map_or(1, |x| u64::from(**x));
    &'static str, |i| ["", "a", "bc"][i as usize % 3], |x| x.len() as u64;
}

// -- elements that misbehave ---------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Right,
    Random,
    Low,
    High,
    Flip,
}
const WAYS: [Way; 5] = [Way::Right, Way::Random, Way::Low, Way::High, Way::Flip];

#[derive(Clone, Copy, Debug)]
struct Policy {
    hash: Way,
    eq: Way,
    cmp: Way,
    index: Way,
    text: Way,
    /// One call in so many panics.
    boom: u64,
}
const GOOD: Policy = Policy { hash: Way::Right, eq: Way::Right, cmp: Way::Right, index: Way::Right, text: Way::Right, boom: 0 };

thread_local! {
    static POLICY: Cell<Policy> = const { Cell::new(GOOD) };
    static DICE: Cell<u64> = const { Cell::new(1) };
    static WRONG: Cell<u64> = const { Cell::new(0) };
}

fn dice() -> u64 {
    let d = mix(DICE.get(), 3);
    DICE.set(d);
    d
}
fn policy() -> Policy {
    let p = POLICY.get();
    if p.boom > 0 && dice() % p.boom == 0 {
        WRONG.set(WRONG.get() + 1);
        std::panic::resume_unwind(Box::new("an element panics"));
    }
    p
}
fn number(way: Way, right: u64, width: u64) -> u64 {
    if way != Way::Right {
        WRONG.set(WRONG.get() + 1);
    }
    match way {
        Way::Right => right,
        Way::Random => dice() % width,
        Way::Low => 0,
        Way::High => u64::MAX - dice() % 3,
        Way::Flip => right.wrapping_add(dice() % 3).wrapping_sub(1),
    }
}
fn truth(way: Way, right: bool) -> bool {
    if way != Way::Right {
        WRONG.set(WRONG.get() + 1);
    }
    match way {
        Way::Right => right,
        Way::Random => dice() & 1 == 0,
        Way::Low => false,
        Way::High => true,
        Way::Flip => !right,
    }
}
fn order(way: Way, right: Ordering) -> Ordering {
    if way != Way::Right {
        WRONG.set(WRONG.get() + 1);
    }
    match way {
        Way::Right => right,
        Way::Random => [Ordering::Less, Ordering::Equal, Ordering::Greater][dice() as usize % 3],
        Way::Low => Ordering::Less,
        Way::High => if dice() % 8 == 0 { Ordering::Equal } else { Ordering::Greater },
        Way::Flip => right.reverse(),
    }
}
fn roll(rng: &mut Rng, building: bool) {
    let way = |rng: &mut Rng| if rng.chance(1, 2) { Way::Right } else { *rng.pick(&WAYS) };
    DICE.set(rng.u64());
    POLICY.set(Policy {
        hash: way(rng),
        eq: way(rng),
        cmp: way(rng),
        index: way(rng),
        text: way(rng),
        boom: if rng.chance(1, 8) { 1 + rng.below(if building { 200 } else { 20 }) } else { 0 },
    });
}
fn behave() {
    POLICY.set(GOOD);
}

/// A heap-owning key with a will of its own.
struct Evil(Box<u32>);
impl Clone for Evil {
    fn clone(&self) -> Self {
        policy();
        Evil(Box::new(*self.0))
    }
}
impl Debug for Evil {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        policy();
        write!(f, "E{}", self.0)
    }
}
impl PartialEq for Evil {
    fn eq(&self, o: &Self) -> bool {
        truth(policy().eq, self.0 == o.0)
    }
}
impl Eq for Evil {}
impl PartialOrd for Evil {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Evil {
    fn cmp(&self, o: &Self) -> Ordering {
        order(policy().cmp, self.0.cmp(&o.0))
    }
}
impl Hash for Evil {
    fn hash<H: Hasher>(&self, h: &mut H) {
        number(policy().hash, u64::from(*self.0), 64).hash(h);
    }
}

/// A query for [`Evil`] that is of another type.
#[derive(Debug)]
struct Ask(u32);
impl PartialEq for Ask {
    fn eq(&self, o: &Self) -> bool {
        truth(policy().eq, self.0 == o.0)
    }
}
impl Eq for Ask {}
impl Hash for Ask {
    fn hash<H: Hasher>(&self, h: &mut H) {
        number(policy().hash, u64::from(self.0), 64).hash(h);
    }
}
impl Equivalent<Evil> for Ask {
    fn equivalent(&self, k: &Evil) -> bool {
        truth(policy().eq, self.0 == *k.0)
    }
}
impl Comparable<Evil> for Ask {
    fn compare(&self, k: &Evil) -> Ordering {
        order(policy().cmp, self.0.cmp(&*k.0))
    }
}

/// A scalar whose index is what it likes.
#[derive(Clone, Copy, Debug)]
struct EvilS(u32);
impl PartialEq for EvilS {
    fn eq(&self, o: &Self) -> bool {
        truth(policy().eq, self.0 == o.0)
    }
}
impl Eq for EvilS {}
impl PartialOrd for EvilS {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for EvilS {
    fn cmp(&self, o: &Self) -> Ordering {
        order(policy().cmp, self.0.cmp(&o.0))
    }
}
impl Hash for EvilS {
    fn hash<H: Hasher>(&self, h: &mut H) {
        number(policy().hash, u64::from(self.0), 64).hash(h);
    }
}
impl Scalar for EvilS {
    fn index(&self) -> usize {
        // small or enormous, nothing between, as the latter would ask for lots of memory
        number(policy().index, u64::from(self.0), 300) as usize
    }
}

/// A query for collections of ordinary integers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct AskInt(i32);
impl Scalar for AskInt {
    fn index(&self) -> usize {
        number(policy().index, Scalar::index(&self.0) as u64, 300) as usize
    }
}
impl Equivalent<i32> for AskInt {
    fn equivalent(&self, k: &i32) -> bool {
        truth(policy().eq, self.0 == *k)
    }
}
impl Comparable<i32> for AskInt {
    fn compare(&self, k: &i32) -> Ordering {
        order(policy().cmp, self.0.cmp(k))
    }
}

/// A text that reads differently every time.
#[derive(Clone, Debug)]
struct EvilText(Vec<String>);
impl AsRef<str> for EvilText {
    fn as_ref(&self) -> &str {
        let i = number(policy().text, 0, 1 << 20) as usize % self.0.len();
        &self.0[i]
    }
}
impl PartialEq for EvilText {
    fn eq(&self, o: &Self) -> bool {
        truth(policy().eq, self.0[0] == o.0[0])
    }
}
impl Eq for EvilText {}

/// Hashes as it likes, whatever it is given.
#[derive(Clone, Debug, Default)]
struct EvilBH;
struct EvilHasher(u64);
impl BuildHasher for EvilBH {
    type Hasher = EvilHasher;
    fn build_hasher(&self) -> EvilHasher {
        EvilHasher(number(policy().hash, 0, 4))
    }
}
impl Hasher for EvilHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0, u64::from(*x));
        }
    }
    fn finish(&self) -> u64 {
        number(policy().hash, self.0, 64)
    }
}
impl<T: ?Sized> frozen_collections::Hasher<T> for EvilBH {
    fn hash_one(&self, _: &T) -> u64 {
        number(policy().hash, dice(), 64)
    }
}

/// Promises any number of items.
struct Liar<T> {
    items: std::vec::IntoIter<T>,
    hint: (usize, Option<usize>),
}
impl<T> Iterator for Liar<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        policy();
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

// -- what is done to them ------------------------------------------------------------------

/// Runs one operation, which may panic; tells whether it didn't.
fn op(cx: &mut Ctx, what: &str, f: impl FnOnce(&mut Ctx)) {
    let before = WRONG.get();
    let r = panics(|| f(cx));
    cx.ev("operations", 1);
    cx.ev(what, 1);
    cx.ev("answers elements got wrong", WRONG.get() - before);
    if let Err(m) = r {
        if m.starts_with("OVERLAP") {
            behave();
            cx.fail(m);
        }
        cx.ev("operations that panicked", 1);
    }
}

/// The references, held all at once, are written and read through in turn; they must not overlap.
fn hold<V: Touch>(refs: Vec<&mut V>, i: u64) {
    if size_of::<V>() > 0 {
        let mut a: Vec<usize> = refs.iter().map(|r| std::ptr::from_ref::<V>(r).addr()).collect();
        a.sort_unstable();
        if a.windows(2).any(|w| w[1] - w[0] < size_of::<V>()) {
            panic!("OVERLAP: two mutable references to one value were handed out");
        }
    }
    let mut refs = refs;
    for r in refs.iter_mut() {
        r.touch(i);
    }
    let mut x = 0;
    for r in refs.iter_mut().rev() {
        x ^= r.look();
        r.touch(i + 1);
    }
    for r in refs.iter() {
        x ^= r.look();
    }
    std::hint::black_box(x);
}

/// Uses a consuming, sharing or mutable iterator to some point, in one of several ways, and drops it.
fn stroll<T>(rng: &mut Rng, mut it: iters::BIt<'_, T>, use_: &mut dyn FnMut(T)) {
    for _ in 0..rng.below(6) {
        match rng.below(6) {
            0 => {
                let _ = it.size_hint();
                let _ = it.len();
            }
            1 => {
                if let Some(x) = it.nth(rng.idx(4)) {
                    use_(x);
                }
            }
            2 => {
                if let Some(c) = it.try_clone() {
                    let n = c.count();
                    std::hint::black_box(n);
                }
            }
            _ => {
                if let Some(x) = it.next() {
                    use_(x);
                }
            }
        }
    }
    match rng.below(5) {
        0 => {}
        1 => it.fold(use_),
        2 => {
            let n = it.count();
            std::hint::black_box(n);
        }
        3 => {
            if let Some(x) = it.last() {
                use_(x);
            }
        }
        _ => {
            // all of them at once
            let all = it.by_collect();
            all.into_iter().for_each(use_);
        }
    }
}

/// Everything a map can be asked, as an object, so that the code below is compiled once per kind of entry.
trait AnyMap<K, Q: ?Sized, V>: MapChange<K, Q, V> + MapWalk<K, V> {
    fn reclone(&mut self, keep: bool);
}
impl<K, Q: ?Sized, V, M: MapChange<K, Q, V> + MapWalk<K, V> + Clone> AnyMap<K, Q, V> for M {
    fn reclone(&mut self, keep: bool) {
        let c = self.clone();
        if keep {
            *self = c;
        }
    }
}
trait AnySet<T, Q: ?Sized>: SetLook<T, Q> + SetWalk<T> {
    fn reclone(&mut self, keep: bool);
}
impl<T, Q: ?Sized, S: SetLook<T, Q> + SetWalk<T> + Clone> AnySet<T, Q> for S {
    fn reclone(&mut self, keep: bool) {
        let c = self.clone();
        if keep {
            *self = c;
        }
    }
}

/// `good`: the elements behave, so keys that differ are disjoint.
fn torture_map<K, Q, V>(cx: &mut Ctx, name: &str, m: &mut dyn AnyMap<K, Q, V>, asks: &[&Q], steps: usize, good: bool, peek: &dyn Fn(&K) -> u64)
where
    Q: ?Sized + Eq,
    V: Touch,
{
    let mut rng = Rng::new(cx.rng.u64());
    for _ in 0..steps {
        let i = rng.u64() % 1000;
        if !good {
            roll(&mut rng, false);
        }
        let q = if asks.is_empty() { None } else { Some(asks[rng.idx(asks.len())]) };
        match (rng.below(16), q) {
            (0..=2, Some(q)) => op(cx, "get", |_| {
                let x = m.get(q).map(|v| v.look());
                let y = m.gkv(q).map(|(k, v)| peek(k) ^ v.look());
                std::hint::black_box((x, y, m.has(q)));
            }),
            (3, Some(q)) => op(cx, "index", |_| {
                std::hint::black_box(m.at(q).look());
            }),
            (4, Some(q)) => op(cx, "get_mut", |_| {
                if let Some(v) = m.get_mut(q) {
                    hold(vec![v], i);
                }
            }),
            (5..=8, Some(_)) => op(cx, "several at once", |cx| {
                let n = [1, 2, 2, 3, 3, 4, 5, 8, 17][rng.idx(9)];
                let mut qs: Vec<&Q> = vec![];
                for _ in 0..n {
                    qs.push(asks[rng.idx(asks.len())]);
                }
                if good {
                    // distinct ones, mostly
                    let distinct = rng.chance(5, 6);
                    for j in 1..qs.len() {
                        for _ in 0..20 {
                            if !distinct || !qs[..j].iter().any(|x| *x == qs[j]) {
                                break;
                            }
                            qs[j] = asks[rng.idx(asks.len())];
                        }
                    }
                    let really = (1..qs.len()).all(|j| !qs[..j].iter().any(|x| *x == qs[j]));
                    if really && rng.chance(1, 2) {
                        // SAFETY: the keys differ and behave, so they are disjoint
                        let got: Vec<&mut V> = unsafe { m.disjoint_unchecked(&qs) }.into_iter().flatten().collect();
                        cx.ev("unchecked references held", got.len() as u64);
                        hold(got, i);
                        return;
                    }
                }
                let got: Vec<&mut V> = m.disjoint(&qs).into_iter().flatten().collect();
                cx.ev("references held", got.len() as u64);
                hold(got, i);
            }),
            (9, _) => op(cx, "shared iteration", |_| match rng.below(4) {
                0 => stroll(&mut rng, m.iter(), &mut |(k, v)| _ = std::hint::black_box(peek(k) ^ v.look())),
                1 => stroll(&mut rng, m.keys(), &mut |k| _ = std::hint::black_box(peek(k))),
                2 => stroll(&mut rng, m.values(), &mut |v| _ = std::hint::black_box(v.look())),
                _ => stroll(&mut rng, m.by_ref(), &mut |(k, v)| _ = std::hint::black_box(peek(k) ^ v.look())),
            }),
            (10, _) => op(cx, "mutable iteration", |_| match rng.below(3) {
                0 => stroll(&mut rng, MapWalk::<K, V>::iter_mut(m), &mut |(k, v)| v.touch(peek(k))),
                1 => stroll(&mut rng, MapWalk::<K, V>::values_mut(m), &mut |v| v.touch(i)),
                _ => stroll(&mut rng, m.by_mut(), &mut |(k, v)| v.touch(peek(k))),
            }),
            (11, _) => op(cx, "all references at once", |_| match rng.below(2) {
                0 => hold(MapWalk::<K, V>::iter_mut(m).by_collect().into_iter().map(|x| x.1).collect(), i),
                _ => hold(MapWalk::<K, V>::values_mut(m).by_collect(), i),
            }),
            (12, _) => op(cx, "consuming iteration", |_| match rng.below(3) {
                0 => stroll(&mut rng, m.into_iter(), &mut |(k, v)| _ = std::hint::black_box(peek(&k) ^ v.look())),
                1 => stroll(&mut rng, m.into_keys(), &mut |k| _ = std::hint::black_box(peek(&k))),
                _ => stroll(&mut rng, m.into_values(), &mut |v| _ = std::hint::black_box(v.look())),
            }),
            (13, _) => op(cx, "clone", |_| {
                m.reclone(rng.chance(1, 2));
            }),
            (14, _) if often(&mut rng) => op(cx, "rendering", |_| {
                std::hint::black_box(m.debugs());
            }),
            _ => op(cx, "length", |_| {
                std::hint::black_box((m.len(), m.is_empty()));
            }),
        }
    }
    behave();
    op(cx, "last look", |_| {
        let all = m.entries();
        let x = all.iter().fold(0, |a, (k, v)| a ^ peek(k) ^ v.look());
        std::hint::black_box((x, m.len()));
    });
    cx.ev(name, 1);
}

fn torture_set<T, Q>(cx: &mut Ctx, name: &str, s: &mut dyn AnySet<T, Q>, asks: &[&Q], steps: usize, good: bool, peek: &dyn Fn(&T) -> u64)
where
    Q: ?Sized,
{
    let mut rng = Rng::new(cx.rng.u64());
    for _ in 0..steps {
        if !good {
            roll(&mut rng, false);
        }
        let q = if asks.is_empty() { None } else { Some(asks[rng.idx(asks.len())]) };
        match (rng.below(6), q) {
            (0..=1, Some(q)) => op(cx, "get", |_| {
                std::hint::black_box((s.get(q).map(peek), s.has(q)));
            }),
            (2, _) => op(cx, "shared iteration", |_| match rng.below(2) {
                0 => stroll(&mut rng, s.iter(), &mut |k| _ = std::hint::black_box(peek(k))),
                _ => stroll(&mut rng, s.by_ref(), &mut |k| _ = std::hint::black_box(peek(k))),
            }),
            (3, _) => op(cx, "consuming iteration", |_| stroll(&mut rng, s.into_iter(), &mut |k| _ = std::hint::black_box(peek(&k)))),
            (4, _) => op(cx, "clone", |_| {
                s.reclone(rng.chance(1, 2));
            }),
            _ if !often(&mut rng) => {}
            _ => op(cx, "rendering", |_| {
                std::hint::black_box((s.debugs(), s.len(), s.is_empty()));
            }),
        }
    }
    behave();
    op(cx, "last look", |_| {
        let x = s.entries().into_iter().fold(0, |a, k| a ^ peek(k));
        std::hint::black_box(x);
    });
    cx.ev(name, 1);
}

/// The set algebra of two sets.
macro_rules! algebra {
    ($cx:expr, $a:expr, $b:expr, $good:expr, |$k:ident| $peek:expr) => {{
        let (a, b) = ($a, $b);
        let mut rng = Rng::new($cx.rng.u64());
        for _ in 0..4 {
            if !$good {
                roll(&mut rng, false);
            }
            op($cx, "set algebra", |_| {
                let mut use_ = |$k: &_| _ = std::hint::black_box($peek);
                match rng.below(9) {
                    0 => stroll(&mut rng, Box::new(iters::Lazy(a.union(b))), &mut use_),
                    1 => stroll(&mut rng, Box::new(iters::Lazy(a.intersection(b))), &mut use_),
                    2 => stroll(&mut rng, Box::new(iters::Lazy(a.difference(b))), &mut use_),
                    3 => stroll(&mut rng, Box::new(iters::Lazy(a.symmetric_difference(b))), &mut use_),
                    4 => drop(a & b),
                    5 => drop(a | b),
                    6 => drop(a - b),
                    7 => drop(a ^ b),
                    _ => _ = std::hint::black_box((a.is_subset(b), a.is_superset(b), a.is_disjoint(b), a == b)),
                }
            });
        }
        behave();
    }};
}

fn scaled(cx: &mut Ctx, native: usize, miri: usize) -> usize {
    size(&mut cx.rng, if cfg!(miri) { miri } else { native })
}
/// Interpreted runs take one collection type in three.
fn seldom(cx: &mut Ctx) -> bool {
    !cfg!(miri) || cx.rng.chance(1, 3)
}
/// Formatting takes an interpreter long.
fn often(rng: &mut Rng) -> bool {
    !cfg!(miri) || rng.chance(1, 8)
}
fn steps() -> usize {
    if cfg!(miri) { 10 } else { 24 }
}

/// The keys of an evil collection.
fn evils(cx: &mut Ctx) -> Vec<u32> {
    let n = scaled(cx, 300, 20);
    let spread = [n as u64 / 2 + 1, n as u64 + 1, 4 * n as u64 + 1, 1 << 20][cx.rng.idx(4)];
    let base = [0, 0, 200, 1 << 30][cx.rng.idx(4)];
    (0..n).map(|_| base + cx.rng.below(spread) as u32).collect()
}
fn askables(cx: &mut Ctx, keys: &[u32]) -> Vec<u32> {
    (0..20)
        .map(|_| if keys.is_empty() || cx.rng.chance(1, 4) { cx.rng.u64() as u32 } else { keys[cx.rng.idx(keys.len())] })
        .collect()
}

/// Builds under some policy; the elements may make it panic.
fn build<M>(cx: &mut Ctx, f: impl FnOnce() -> M) -> Option<M> {
    let mut rng = Rng::new(cx.rng.u64());
    roll(&mut rng, true);
    let mut m = None;
    op(cx, "construction", |_| m = Some(f()));
    behave();
    m
}

fn lie(rng: &mut Rng, n: usize) -> (usize, Option<usize>) {
    match rng.below(6) {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (n + 7, Some(n + 7)),
        3 => (usize::MAX, None),
        4 => (usize::MAX, Some(0)),
        _ => (0, Some(0)),
    }
}

fn evil_hash<V: Touch>(cx: &mut Ctx) {
    let keys = evils(cx);
    let asks = askables(cx, &keys);
    cx.describe(format!("misbehaving keys, hashed, n={} {}", keys.len(), std::any::type_name::<V>()));
    let e: Vec<(u32, V)> = keys.iter().enumerate().map(|(i, k)| (*k, V::make(i as u64))).collect();
    let list = || e.iter().map(|(k, v)| (Evil(Box::new(*k)), v.clone())).collect::<Vec<_>>();
    let (a, b): (Vec<Evil>, Vec<Ask>) = (asks.iter().map(|x| Evil(Box::new(*x))).collect(), asks.iter().map(|x| Ask(*x)).collect());
    let (a, b): (Vec<&Evil>, Vec<&Ask>) = (a.iter().collect(), b.iter().collect());
    let peek = |k: &Evil| u64::from(*k.0);
    let bh = DynBH::pick(&mut cx.rng, keys.len());
    macro_rules! go {
        ($name:expr, $m:expr) => {{
            let entries = list();
            if let Some(m) = build(cx, move || $m(entries)) {
                let mut m = In(m);
                torture_map::<Evil, Evil, V>(cx, $name, &mut m, &a, steps() / 2, false, &peek);
                torture_map::<Evil, Ask, V>(cx, $name, &mut m, &b, steps() / 2, false, &peek);
                cx.distinct(mix(model::fp(&$name), model::fp(&keys)));
            }
        }};
    }
    match cx.rng.below(6) {
        0 => go!("FzHashMap", |e| FzHashMap::<Evil, V>::new(e)),
        1 => go!("FzHashMap(evil hasher)", |e| FzHashMap::<Evil, V, _>::with_hasher(e, EvilBH)),
        2 => go!("FzHashMap(bad hasher)", |e| FzHashMap::<Evil, V, _>::with_hasher(e, bh.clone())),
        3 => go!("HashMap<small>(evil hasher)", |e| maps::HashMap::<Evil, V, SmallCollection, _>::with_hasher(e, EvilBH).unwrap()),
        4 => go!("HashMap<large>(evil hasher)", |e| maps::HashMap::<Evil, V, LargeCollection, _>::with_hasher(e, EvilBH).unwrap()),
        _ => go!("ScanMap", |e| maps::ScanMap::<Evil, V>::new(e)),
    }
    // from iterators that lie, and against other sets
    let hint = lie(&mut cx.rng, keys.len());
    let set = |_: &mut Ctx| list().into_iter().map(|x| x.0).collect::<Vec<_>>();
    let (l1, l2) = (set(cx), set(cx));
    let s1 = build(cx, || Liar { items: l1.into_iter(), hint }.collect::<FzHashSet<Evil>>());
    let s2 = build(cx, || FzHashSet::<Evil, _>::with_hasher(l2, EvilBH));
    if let Some(s) = &s1 {
        torture_set::<Evil, Ask>(cx, "FzHashSet", &mut In(s.clone()), &b, steps(), false, &peek);
    }
    if let Some(s) = &s2 {
        torture_set::<Evil, Evil>(cx, "FzHashSet(evil hasher)", &mut In(s.clone()), &a, steps(), false, &peek);
    }
    if let (Some(s1), Some(s2)) = (&s1, &s2) {
        algebra!(cx, s1, s2, false, |k| peek(k));
    }
    cx.sample(|| format!("hashed {:?}", &keys[..keys.len().min(12)]));
}

fn evil_ord<V: Touch>(cx: &mut Ctx) {
    let keys = evils(cx);
    let asks = askables(cx, &keys);
    cx.describe(format!("misbehaving keys, ordered, n={} {}", keys.len(), std::any::type_name::<V>()));
    let e: Vec<(u32, V)> = keys.iter().enumerate().map(|(i, k)| (*k, V::make(i as u64))).collect();
    let list = || e.iter().map(|(k, v)| (Evil(Box::new(*k)), v.clone())).collect::<Vec<_>>();
    let (a, b): (Vec<Evil>, Vec<Ask>) = (asks.iter().map(|x| Evil(Box::new(*x))).collect(), asks.iter().map(|x| Ask(*x)).collect());
    let (a, b): (Vec<&Evil>, Vec<&Ask>) = (a.iter().collect(), b.iter().collect());
    let peek = |k: &Evil| u64::from(*k.0);
    let hint = lie(&mut cx.rng, keys.len());
    macro_rules! go {
        ($name:expr, $m:expr) => {{
            let entries = list();
            if let Some(m) = build(cx, move || $m(entries)) {
                let mut m = In(m);
                torture_map::<Evil, Evil, V>(cx, $name, &mut m, &a, steps() / 2, false, &peek);
                torture_map::<Evil, Ask, V>(cx, $name, &mut m, &b, steps() / 2, false, &peek);
                cx.distinct(mix(model::fp(&$name), model::fp(&keys)));
            }
        }};
    }
    match cx.rng.below(3) {
        0 => go!("FzOrderedMap", |e: Vec<(Evil, V)>| Liar { items: e.into_iter(), hint }.collect::<FzOrderedMap<Evil, V>>()),
        1 => go!("EytzingerSearchMap", |e| maps::EytzingerSearchMap::<Evil, V>::new(e)),
        _ => {
            // through the traits, the standard map
            let entries = list();
            if let Some(m) = build(cx, move || entries.into_iter().collect::<std::collections::BTreeMap<Evil, V>>()) {
                torture_map::<Evil, Evil, V>(cx, "std BTreeMap", &mut Tr(m), &a, steps(), false, &peek);
            }
            let entries = list();
            if let Some(m) = build(cx, move || entries.into_iter().collect::<std::collections::HashMap<Evil, V>>()) {
                torture_map::<Evil, Evil, V>(cx, "std HashMap", &mut Tr(m), &a, steps(), false, &peek);
            }
        }
    }
    let keys_of = || list().into_iter().map(|x| x.0).collect::<Vec<_>>();
    let (l1, l2) = (keys_of(), keys_of());
    let s1 = build(cx, || FzOrderedSet::<Evil>::new(l1));
    let s2 = build(cx, || l2.into_iter().collect::<std::collections::BTreeSet<Evil>>());
    if let Some(s) = &s1 {
        torture_set::<Evil, Ask>(cx, "FzOrderedSet", &mut In(s.clone()), &b, steps(), false, &peek);
    }
    if let (Some(s1), Some(s2)) = (&s1, &s2) {
        algebra!(cx, s1, s1, false, |k| peek(k));
        let mut rng = Rng::new(cx.rng.u64());
        op(cx, "set algebra", |_| stroll(&mut rng, Box::new(iters::Lazy(s1.union(s2))), &mut |k| _ = std::hint::black_box(peek(k))));
    }
    cx.sample(|| format!("ordered {:?}", &keys[..keys.len().min(12)]));
}

fn evil_scalar<V: Touch>(cx: &mut Ctx) {
    let n = scaled(cx, 300, 20) as u32;
    let base = [0, 0, 3, 200][cx.rng.idx(4)];
    let step = [1, 1, 2, 5][cx.rng.idx(4)];
    let mut keys: Vec<u32> = (0..n).map(|i| base + i * step).collect();
    cx.rng.shuffle(&mut keys);
    let mut asks: Vec<u32> = askables(cx, &keys);
    for (i, x) in [0, 1, base.wrapping_sub(1), base + n * step, base + n * step + 1, u32::MAX].into_iter().enumerate() {
        asks[i] = x;
    }
    cx.describe(format!("misbehaving scalars, n={n} from {base} by {step} {}", std::any::type_name::<V>()));
    let e: Vec<(EvilS, V)> = keys.iter().enumerate().map(|(i, k)| (EvilS(*k), V::make(i as u64))).collect();
    let a: Vec<EvilS> = asks.iter().map(|x| EvilS(*x)).collect();
    let a: Vec<&EvilS> = a.iter().collect();
    let peek = |k: &EvilS| u64::from(k.0);
    macro_rules! go {
        ($name:expr, $m:expr) => {{
            let entries = e.clone();
            if let Some(m) = build(cx, move || $m(entries)) {
                torture_map::<EvilS, EvilS, V>(cx, $name, &mut In(m), &a, steps(), false, &peek);
                cx.distinct(mix(model::fp(&$name), model::fp(&keys)));
            }
        }};
    }
    match cx.rng.below(4) {
        0 => go!("FzScalarMap", |e| FzScalarMap::<EvilS, V>::new(e)),
        1 => go!("DenseScalarLookupMap", |e| maps::DenseScalarLookupMap::<EvilS, V>::new(e).unwrap()),
        2 => go!("SparseScalarLookupMap", |e| maps::SparseScalarLookupMap::<EvilS, V>::new(e)),
        _ => go!("HashMap<small>(scalar hasher)", |e| maps::HashMap::<EvilS, V, LargeCollection, _>::with_hasher(e, frozen_collections::hashers::ScalarHasher {}).unwrap()),
    }
    let l: Vec<EvilS> = e.iter().map(|x| x.0).collect();
    if let Some(s) = build(cx, || FzScalarSet::<EvilS>::new(l)) {
        algebra!(cx, &s, &s, false, |k| peek(k));
        torture_set::<EvilS, EvilS>(cx, "FzScalarSet", &mut In(s), &a, steps(), false, &peek);
    }
    cx.sample(|| format!("scalars {:?}", &keys[..keys.len().min(12)]));
}

fn evil_text<V: Touch>(cx: &mut Ctx) {
    let n = scaled(cx, 200, 20);
    let (keys, shape) = Box::<str>::list(&mut cx.rng, n);
    let near = Box::<str>::probes(&mut cx.rng, &keys, 20);
    cx.describe(format!("texts that change, n={} {shape}", keys.len()));
    let e: Vec<(Box<str>, V)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), V::make(i as u64))).collect();
    let mut pool: Vec<String> = keys.iter().take(100).chain(&near).map(|x| x.to_string()).collect();
    pool.extend(["".to_string(), "a".repeat(3), "é".repeat(40), "\u{10ffff}".into()]);
    let asks: Vec<EvilText> = (0..20).map(|_| EvilText((0..1 + cx.rng.idx(4)).map(|_| cx.rng.pick(&pool).clone()).collect())).collect();
    let asks: Vec<&EvilText> = asks.iter().collect();
    let peek = |k: &Box<str>| k.bytes().map(u64::from).sum();
    macro_rules! go {
        ($name:expr, $m:expr) => {{
            let entries = e.clone();
            if let Some(m) = build(cx, move || $m(entries)) {
                torture_map::<Box<str>, EvilText, V>(cx, $name, &mut In(m), &asks, steps(), false, &peek);
                cx.distinct(mix(model::fp(&$name), model::fp(&keys)));
            }
        }};
    }
    match cx.rng.below(2) {
        0 => go!("FzStringMap", |e| FzStringMap::<Box<str>, V>::new(e)),
        _ => go!("FzStringMap(evil hasher)", |e| FzStringMap::<Box<str>, V, _>::with_hasher(e, EvilBH)),
    }
    let l = keys.clone();
    if let Some(s) = build(cx, || FzStringSet::<Box<str>, _>::with_hasher(l, EvilBH)) {
        torture_set::<Box<str>, EvilText>(cx, "FzStringSet", &mut In(s), &asks, steps(), false, &peek);
    }
    cx.sample(|| format!("texts {:?}", &keys[..keys.len().min(8)]));
}

/// Collections emitted by the macros, asked by queries that misbehave.
fn evil_inline(cx: &mut Ctx) {
    use fz_hash_map as hm;
    use fz_scalar_map as sm;
    cx.describe("inline collections of integers, asked by misbehaving queries".into());
    let dense = sm!({ 4: 40u64, 5: 50, 6: 60, 7: 70, 8: 80, 9: 90, });
    let negative = sm!({ -2: 40u64, -1: 50, 0: 60, 1: 70, });
    let sparse = sm!({ 1: 1u64, 3: 3, 4: 4, 6: 6, 9: 9, 10: 10, 13: 13, 20: 20, });
    let spread = sm!({ -2_000_000_000: 1u64, -7: 2, 0: 3, 99: 4, 1_000_000: 5, 77_777_777: 6, 1_999_999_999: 7, 2_147_483_647: 8, 5: 9, });
    let few = hm!({ 10: 1u64, 2000: 2, -3: 3, });
    macro_rules! go {
        ($($m:ident)*) => {$(
            let m = &mut $m.clone();
            let mut rng = Rng::new(cx.rng.u64());
            let keys: Vec<i32> = m.iter().map(|x| *x.0).collect();
            for _ in 0..steps() {
                roll(&mut rng, false);
                let ask = |rng: &mut Rng| AskInt(if rng.chance(2, 3) { *rng.pick(&keys) } else { keys[0].wrapping_add(rng.below(40) as i32 - 20) });
                let q: [AskInt; 4] = std::array::from_fn(|_| ask(&mut rng));
                let i = rng.u64() % 100;
                match rng.below(4) {
                    0 => op(cx, "get", |_| {
                        std::hint::black_box((m.get(&q[0]), m.contains_key(&q[1]), m.get_key_value(&q[2])));
                        if let Some(v) = m.get_mut(&q[3]) { *v = i; }
                    }),
                    1 => op(cx, "get", |_| _ = std::hint::black_box(m.get(&q[0]).copied())),
                    2 => op(cx, "several at once", |cx| {
                        let got: Vec<&mut u64> = m.get_disjoint_mut([&q[0], &q[1], &q[2], &q[3]]).into_iter().flatten().collect();
                        cx.ev("references held", got.len() as u64);
                        hold(got, i);
                    }),
                    _ => op(cx, "several at once", |cx| {
                        let got: Vec<&mut u64> = m.get_disjoint_mut([&q[0], &q[1]]).into_iter().flatten().collect();
                        cx.ev("references held", got.len() as u64);
                        hold(got, i);
                    }),
                }
            }
            behave();
            std::hint::black_box(m.iter().map(|x| *x.1).sum::<u64>());
            cx.ev(concat!("inline ", stringify!($m)), 1);
        )*};
    }
    go!(dense negative sparse spread few);
    // keys written as expressions may misbehave themselves
    let ev = |i: u32| Evil(Box::new(i));
    let asks: Vec<Ask> = [1, 2, 3, 4, 5, 6, 7].map(Ask).into();
    let asks: Vec<&Ask> = asks.iter().collect();
    let peek = |k: &Evil| u64::from(*k.0);
    macro_rules! evil {
        ($name:expr, $m:expr) => {
            if let Some(m) = build(cx, || $m) {
                torture_map::<Evil, Ask, u64>(cx, $name, &mut In(m), &asks, steps(), false, &peek);
            }
        };
    }
    evil!("inline hash map of expressions", hm!({ ev(1): 1u64, ev(2): 2, ev(3): 3, ev(4): 4, ev(5): 5, ev(6): 6, }));
    evil!("inline scan map of expressions", hm!({ ev(1): 1u64, ev(2): 2, ev(3): 3, }));
    evil!("inline ordered map of expressions", fz_ordered_map!({ ev(1): 1u64, ev(2): 2, ev(3): 3, ev(4): 4, ev(5): 5, ev(6): 6, }));
}

/// Inline collections of strings, by every way of hashing them.
fn inline_strings(cx: &mut Ctx) {
    cx.describe("inline collections of strings".into());
    let mut rng = Rng::new(cx.rng.u64());
    macro_rules! go {
        ($($name:literal { $($k:literal),* })*) => {$(
            if seldom(cx) {
                let keys: Vec<Box<str>> = vec![$($k.into()),*];
                let mut asks = Box::<str>::probes(&mut rng, &keys, 16);
                asks.extend(keys);
                asks.extend(["".into(), "\u{10ffff}".into(), "ab".into(), "€".into(), "x".repeat(300).into()]);
                let q: Vec<&str> = asks.iter().map(|x| &**x).collect();
                let peek = |k: &&'static str| k.bytes().map(u64::from).sum();
                torture_map::<&'static str, str, u64>(cx, concat!("inline strings by ", $name), &mut In(fz_string_map!({ $($k: 1u64,)* })), &q, steps(), true, &peek);
                torture_set::<&'static str, str>(cx, concat!("inline strings by ", $name), &mut In(fz_string_set!({ $($k,)* })), &q, steps(), true, &peek);
            }
        )*};
    }
    go! {
        "left range" { "alpha-tail", "bravo-tail", "carlo-tail", "delta-tail", "echos-tail", "foxes-tail", "golfs-tail" }
        "right range" { "head-alpha", "head-bravo", "head-carlo", "head-delta", "head-echos", "head-foxes", "head-golfs" }
        "length" { "x", "xx", "xxx", "xxxx", "xxxxx", "xxxxxx", "xxxxxxx", "xxxxxxxxx" }
        "hash" { "aab", "aba", "baa", "abb", "bab", "bba", "aaa", "bbb", "aabb", "abab", "baba", "bbaa", "abba", "baab", "", "é", "éé" }
        "scan" { "one", "two" }
        "different lengths" { "", "a", "bcd", "efghij", "klmnopqrstuvwxyz", "żółć", "日本語テキスト" }
    }
}

/// Elements that behave, of awkward layouts.
fn layouts(cx: &mut Ctx) {
    macro_rules! keyed {
        ($K:ty, $Q:ty, $V:ty, |$k:ident| $peek:expr) => {{
            let n = scaled(cx, 400, 14);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let probes = <$K>::probes(&mut cx.rng, &keys, 12);
            let mut asks: Vec<$K> = probes;
            asks.extend(keys.iter().take(20).cloned());
            let e: Vec<($K, $V)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), <$V>::make(i as u64))).collect();
            let bh = DynBH::pick(&mut cx.rng, n);
            cx.describe(format!("{} -> {} {shape} n={} hasher={:?}", stringify!($K), stringify!($V), e.len(), bh.kind));
            let peek = |$k: &$K| -> u64 { $peek };
            let mut d = keys.clone();
            d.sort();
            d.dedup();
            macro_rules! run {
                ($name:expr, $m:expr) => {if seldom(cx) {
                    cx.distinct(mix(model::fp(&$name), model::fp(&d)));
                    let mut m = In($m);
                    <$K as Probe<$Q>>::with_many(&asks, |qs| torture_map::<$K, $Q, $V>(cx, $name, &mut m, qs, steps(), true, &peek));
                }};
            }
            match cx.rng.below(3) {
                0 => hash_maps!($K, $V, e, bh, d.len(), |name, m| { run!(name, m) }),
                1 => ord_maps!($K, $V, e, |name, m| { run!(name, m) }),
                _ => {
                    let half: Vec<$K> = keys.iter().step_by(2).cloned().chain(asks.iter().cloned()).collect();
                    hash_sets!($K, keys, bh, |name, m| {
                        let mut m = In(m);
                        <$K as Probe<$Q>>::with_many(&asks, |qs| torture_set::<$K, $Q>(cx, name, &mut m, qs, steps(), true, &peek));
                    });
                    let (one, other) = (FzHashSet::<$K, _>::with_hasher(keys.clone(), bh.clone()), FzHashSet::<$K>::new(half.clone()));
                    algebra!(cx, &one, &other, true, |k| peek(k));
                    ord_sets!($K, keys, |name, m| {
                        let other = FzOrderedSet::<$K>::new(half.clone());
                        algebra!(cx, &m, &other, true, |k| peek(k));
                        let mut m = In(m);
                        <$K as Probe<$Q>>::with_many(&asks, |qs| torture_set::<$K, $Q>(cx, name, &mut m, qs, steps(), true, &peek));
                    });
                }
            }
        }};
    }
    match cx.rng.below(5) {
        0 => keyed!(u64, u64, Wide, |k| *k),
        1 => keyed!(String, str, Nothing, |k| k.len() as u64),
        2 => keyed!((), (), Huge, |_k| 0),
        3 => keyed!(Fat, Fat, Padded, |k| u64::from(k.1[39])),
        _ => keyed!(Pt, PtRef, Option<Box<u32>>, |k| *k.b as u64),
    }
}

fn scalars<V: Touch>(cx: &mut Ctx) {
    macro_rules! case {
        ($K:ty) => {{
            let n = scaled(cx, 400, 14);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let mut asks = <$K>::probes(&mut cx.rng, &keys, 20);
            asks.extend(keys.iter().take(20).cloned());
            let asks: Vec<&$K> = asks.iter().collect();
            let e: Vec<($K, V)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), V::make(i as u64))).collect();
            cx.describe(format!("scalar {} -> {} {shape} n={}", stringify!($K), std::any::type_name::<V>(), e.len()));
            let peek = |k: &$K| Scalar::index(k) as u64;
            let mut d = keys.clone();
            d.sort();
            d.dedup();
            scalar_maps!($K, V, e, |name, m| {
                cx.distinct(mix(model::fp(&name), model::fp(&d)));
                torture_map::<$K, $K, V>(cx, name, &mut In(m), &asks, steps(), true, &peek);
            });
            scalar_sets!($K, keys, |name, m| {
                algebra!(cx, &m, &m, true, |k| peek(k));
                torture_set::<$K, $K>(cx, name, &mut In(m), &asks, steps(), true, &peek);
            });
        }};
    }
    match cx.rng.below(3) {
        0 => case!(i8),
        1 => case!(u32),
        _ => case!(std::num::NonZeroI64),
    }
}

fn strings<V: Touch>(cx: &mut Ctx) {
    let n = scaled(cx, 300, 14);
    let (keys, shape) = Box::<str>::list(&mut cx.rng, n);
    let mut asks = Box::<str>::probes(&mut cx.rng, &keys, 20);
    asks.extend(keys.iter().take(20).cloned());
    let e: Vec<(Box<str>, V)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), V::make(i as u64))).collect();
    let bh = DynBH::pick(&mut cx.rng, n);
    cx.describe(format!("string -> {} {shape} n={} hasher={:?}", std::any::type_name::<V>(), e.len(), bh.kind));
    let peek = |k: &Box<str>| k.bytes().map(u64::from).sum();
    let q: Vec<&str> = asks.iter().map(|x| &**x).collect();
    string_maps!(V, e, bh, |name, m| {
        cx.distinct(mix(model::fp(&name), model::fp(&keys)));
        torture_map::<Box<str>, str, V>(cx, name, &mut In(m), &q, steps(), true, &peek);
    });
    string_sets!(keys, bh, |name, m| {
        algebra!(cx, &m, &m, true, |k| peek(k));
        torture_set::<Box<str>, str>(cx, name, &mut In(m), &q, steps(), true, &peek);
    });
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    impl Touch for Vec<u8> {
        fn make(i: u64) -> Self {
            vec![i as u8; 3]
        }
        fn look(&self) -> u64 {
            self.iter().map(|x| u64::from(*x)).sum()
        }
    }
    macro_rules! visit_map {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty, $V:ty) => {
            if !cfg!(miri) || $cx.rng.chance(1, 12) { $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<($K, $V)> = $e;
                let present: Vec<$K> = e.into_iter().map(|x| x.0).collect();
                let mut asks = <$K>::probes(&mut cx.rng, &present, 20);
                asks.extend(present.iter().take(20).cloned());
                let mut m = In($m.clone());
                <$K as Probe<$Q>>::with_many(&asks, |qs| torture_map::<$K, $Q, $V>(cx, "inline map", &mut m, qs, 3 * steps(), true, &|k| model::fp(k)));
                cx.ev("inline collections", 1);
            }); }
        };
    }
    macro_rules! visit_set {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty) => {
            if !cfg!(miri) || $cx.rng.chance(1, 12) { $cx.run(|cx| {
                cx.describe($desc.into());
                let present: Vec<$K> = $e;
                let mut asks = <$K>::probes(&mut cx.rng, &present, 20);
                asks.extend(present.iter().take(20).cloned());
                let mut m = In($m.clone());
                <$K as Probe<$Q>>::with_many(&asks, |qs| torture_set::<$K, $Q>(cx, "inline set", &mut m, qs, 3 * steps(), true, &|k| model::fp(k)));
                cx.ev("inline collections", 1);
            }); }
        };
    }
    include!(env!("FZMON_FIXTURE"));
}

/// A deliberate read out of bounds, to see whether the instrument watching this process reports it.
fn control() {
    let v: Box<[u64]> = vec![1, 2, 3].into();
    let i = std::hint::black_box(3 + std::env::args().count() % 2);
    println!("{}", unsafe { *v.as_ptr().add(i) });
}

fn main() {
    if std::env::var_os("FZMON_CONTROL").is_some() {
        return control();
    }
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    fixture::run(&mut cx);
    let n = cx.n(60_000);
    for i in 0..n {
        // starts anywhere, so that short runs differ
        let i = i.wrapping_add(mix(cx.seed, cx.shard) % 4096);
        match i % 10 {
            0 => cx.run(evil_hash::<String>),
            1 => cx.run(evil_ord::<Padded>),
            2 => cx.run(evil_scalar::<Wide>),
            3 => cx.run(evil_text::<Nothing>),
            4 if i / 10 % 2 == 0 => cx.run(evil_inline),
            4 => cx.run(inline_strings),
            5 | 6 => cx.run(layouts),
            7 => cx.run(scalars::<Padded>),
            8 => cx.run(scalars::<Nothing>),
            _ => cx.run(strings::<Wide>),
        }
    }
    cx.finish();
}
