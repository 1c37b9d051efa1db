//! C13: many threads reading one collection, natively, under ThreadSanitizer and under Miri.
use frozen_collections::*;
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::fam::Probe;
use fzmon::hashers::DynBH;
use fzmon::keys::*;
use fzmon::model::*;
use fzmon::rng::{Rng, mix};
use fzmon::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::sync::Barrier;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

thread_local! {
    static JITTER: Cell<u64> = const { Cell::new(0) };
}

/// Called from the hashing, comparing and constructing code of the keys: delays at random, so that
/// threads stop in the middle of lookups.
fn jitter() {
    let s = JITTER.get();
    if s == 0 {
        return;
    }
    let s = mix(s, 1);
    JITTER.set(s | 1);
    if s % 64 == 0 {
        std::thread::yield_now();
    } else if s % 16 == 0 {
        for _ in 0..(s >> 32) % 200 {
            std::hint::spin_loop();
        }
    }
}

/// A key whose every use may be delayed.
#[derive(Clone, Debug)]
struct Slow(u64);
impl PartialEq for Slow {
    fn eq(&self, o: &Self) -> bool {
        jitter();
        self.0 == o.0
    }
}
impl Eq for Slow {}
impl PartialOrd for Slow {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Slow {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        jitter();
        self.0.cmp(&o.0)
    }
}
impl Hash for Slow {
    fn hash<H: Hasher>(&self, h: &mut H) {
        jitter();
        self.0.hash(h);
    }
}
impl Key for Slow {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = u64::list(rng, n);
        (v.into_iter().map(Slow).collect(), s)
    }
    fn near(&self, rng: &mut Rng) -> Self {
        Slow(self.0.near(rng))
    }
    fn random(rng: &mut Rng) -> Self {
        Slow(u64::random(rng))
    }
}

const THREADS: usize = 4;

/// Numbers the operations of all threads; relaxed, so that it orders nothing.
static TICKET: AtomicU32 = AtomicU32::new(0);

struct Worker {
    id: usize,
    rng: Rng,
    ops: u64,
    hits: u64,
    tickets: Vec<u32>,
    wrong: Option<String>,
}

impl Worker {
    fn tick(&mut self) {
        self.ops += 1;
        if self.tickets.len() < 64 {
            self.tickets.push(TICKET.fetch_add(1, Relaxed));
        }
    }
    fn expect(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok && self.wrong.is_none() {
            self.wrong = Some(msg());
        }
    }
}

/// Runs the same reading code in several threads at once.
fn together(cx: &mut Ctx, name: &str, f: &(dyn Fn(&mut Worker) + Sync)) {
    let barrier = Barrier::new(THREADS);
    let seed = cx.rng.u64();
    let workers: Vec<Result<Worker, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS)
            .map(|id| {
                let barrier = &barrier;
                s.spawn(move || {
                    let mut w = Worker { id, rng: Rng::new(mix(seed, id as u64)), ops: 0, hits: 0, tickets: vec![], wrong: None };
                    JITTER.set(w.rng.u64() | 1);
                    barrier.wait();
                    f(&mut w);
                    JITTER.set(0);
                    w
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| "a reading thread panicked".to_string())).collect()
    });
    let mut order: Vec<(u32, usize)> = vec![];
    for w in workers {
        match w {
            Ok(w) => {
                if let Some(m) = w.wrong {
                    cx.fail(format!("{name}: thread {}: {m}", w.id));
                }
                cx.ev("concurrent operations", w.ops);
                cx.ev("concurrent hits", w.hits);
                order.extend(w.tickets.iter().map(|t| (*t, w.id)));
            }
            Err(m) => cx.fail(format!("{name}: {m}")),
        }
    }
    order.sort();
    let switches = order.windows(2).filter(|w| w[0].1 != w[1].1).count() as u64;
    cx.ev("thread switches seen", switches);
    if switches > THREADS as u64 {
        cx.ev("interleaved runs", 1);
        cx.distinct(order.iter().fold(1, |h, x| mix(h, x.1 as u64)));
    }
    cx.ev(name, 1);
}

/// Several rounds of lookups and traversals by each thread, against the dictionary.
fn read_map<K: Probe<Q> + Sync, Q: ?Sized, V: Val + Sync>(w: &mut Worker, m: &dyn MapLook<K, Q, V>, md: &BTreeMap<K, V>, ask: &[K], first: &[(K, V)]) {
    let n = ask.len();
    for _ in 0..2 {
        let start = if n > 0 { w.rng.idx(n) } else { 0 };
        let step = [1, n.max(2) - 1, 7, 1][w.rng.idx(4)];
        for i in 0..n {
            let k = &ask[(start + i * step) % n];
            let want = md.get(k);
            w.tick();
            w.hits += u64::from(want.is_some());
            k.with(|q| {
                let got = match w.rng.below(3) {
                    0 => m.get(q) == want,
                    1 => m.has(q) == want.is_some(),
                    _ => m.gkv(q).is_some_and(|x| x.0 == k && Some(x.1) == want) == want.is_some(),
                };
                w.expect(got, || format!("lookup of {k:?} while other threads read: expected {want:?}, now get gives {:?}", m.get(q)));
            });
        }
        w.tick();
        let all = m.entries();
        let same = all.len() == first.len() && all.iter().zip(first).all(|(a, b)| *a.0 == b.0 && *a.1 == b.1);
        w.expect(same && m.len() == md.len(), || format!("iteration gives {} entries, others than before the threads started", all.len()));
    }
}

fn read_set<T: Probe<Q> + Sync, Q: ?Sized>(w: &mut Worker, m: &dyn SetLook<T, Q>, md: &BTreeSet<T>, ask: &[T], first: &[T]) {
    let n = ask.len();
    for _ in 0..2 {
        let start = if n > 0 { w.rng.idx(n) } else { 0 };
        for i in 0..n {
            let k = &ask[(start + i * 3) % n];
            let want = md.contains(k);
            w.tick();
            w.hits += u64::from(want);
            k.with(|q| {
                let got = if w.rng.chance(1, 2) { m.has(q) == want } else { m.get(q).is_some_and(|x| x == k) == want };
                w.expect(got, || format!("membership of {k:?} while other threads read: expected {want}"));
            });
        }
        w.tick();
        let all = m.entries();
        w.expect(all.len() == first.len() && all.iter().zip(first).all(|(a, b)| *a == b), || "iteration differs from before the threads started".into());
    }
}

macro_rules! share_map {
    ($cx:expr, $name:expr, $K:ty, $Q:ty, $V:ty, $m:expr, $md:expr, $ask:expr) => {{
        let m = In($m);
        let first: Vec<($K, $V)> = MapLook::<$K, $Q, $V>::entries(&m).into_iter().map(|x| (x.0.clone(), x.1.clone())).collect();
        together($cx, $name, &|w| {
            read_map::<$K, $Q, $V>(w, &m, &$md, &$ask, &first);
            // whole-collection reads
            let c = m.clone();
            w.tick();
            w.expect(c.0 == m.0, || "a clone made while other threads read differs".into());
            let text = format!("{:?}", m.0);
            w.expect(text.len() >= 2, || "rendering".into());
        });
        // reading changed nothing
        let mut m = m;
        audit_map::<$K, $Q, $V>($cx, $name, &mut m, &$md, &$ask);
    }};
}

macro_rules! share_set {
    ($cx:expr, $name:expr, $K:ty, $Q:ty, $m:expr, $md:expr, $ask:expr, $other:expr) => {{
        let m = In($m);
        let other = $other;
        let first: Vec<$K> = SetLook::<$K, $Q>::entries(&m).into_iter().cloned().collect();
        let want: usize = $md.iter().filter(|x| other.contains(*x)).count();
        together($cx, $name, &|w| {
            read_set::<$K, $Q>(w, &m, &$md, &$ask, &first);
            w.tick();
            let n = m.0.intersection(&other).count();
            w.expect(n == want, || format!("the intersection has {n} elements, expected {want}"));
            let n = m.0.union(&other).count();
            w.expect(n == $md.len() + other.len() - want, || format!("the union has {n} elements"));
        });
        audit_set::<$K, $Q>($cx, $name, &m, &$md, &$ask);
    }};
}

fn pick_size(cx: &mut Ctx) -> usize {
    let max = if cfg!(miri) { 9 } else if cx.rng.chance(1, 10) { 500 } else { 60 };
    size(&mut cx.rng, max)
}

fn keyed(cx: &mut Ctx) {
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty) => {{
            let n = pick_size(cx);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys.clone());
            let md = model(&e);
            let bh = DynBH::pick(&mut cx.rng, n);
            cx.describe(format!("{} shape={shape} n={} hasher={:?}", stringify!($K), e.len(), bh.kind));
            let present: Vec<$K> = md.keys().cloned().collect();
            let mut ask = <$K>::probes(&mut cx.rng, &present, 12);
            ask.extend(present.iter().take(300).cloned());
            cx.rng.shuffle(&mut ask);
            match cx.rng.below(3) {
                0 => hash_maps!($K, $V, e, bh, md.len(), |name, m| { share_map!(cx, name, $K, $Q, $V, m, md, ask) }),
                1 => ord_maps!($K, $V, e, |name, m| { share_map!(cx, name, $K, $Q, $V, m, md, ask) }),
                _ => {
                    let ms: BTreeSet<$K> = keys.iter().cloned().collect();
                    let other: FzOrderedSet<$K> = ask.iter().cloned().collect();
                    hash_sets!($K, keys, bh, |name, m| { share_set!(cx, name, $K, $Q, m, ms, ask, other.clone()) });
                    ord_sets!($K, keys, |name, m| { share_set!(cx, name, $K, $Q, m, ms, ask, other.clone()) });
                }
            }
            cx.sample(|| format!("{shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    match cx.rng.below(3) {
        0 => case!(u64, u64, String),
        1 => case!(String, str, u64),
        _ => case!(Slow, Slow, u64),
    }
}

fn scalar(cx: &mut Ctx) {
    macro_rules! case {
        ($K:ty) => {{
            let n = pick_size(cx);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, String)> = entries(keys.clone());
            let md = model(&e);
            cx.describe(format!("scalar {} shape={shape} n={}", stringify!($K), e.len()));
            let present: Vec<$K> = md.keys().cloned().collect();
            let mut ask = <$K>::probes(&mut cx.rng, &present, 12);
            ask.extend(present.iter().take(300).cloned());
            scalar_maps!($K, String, e, |name, m| { share_map!(cx, name, $K, $K, String, m, md, ask) });
            let ms: BTreeSet<$K> = keys.iter().cloned().collect();
            let other: FzScalarSet<$K> = ask.iter().cloned().collect();
            scalar_sets!($K, keys, |name, m| { share_set!(cx, name, $K, $K, m, ms, ask, other.clone()) });
        }};
    }
    match cx.rng.below(2) {
        0 => case!(i64),
        _ => case!(u8),
    }
}

fn string(cx: &mut Ctx) {
    let n = pick_size(cx);
    let (keys, shape) = Box::<str>::list(&mut cx.rng, n);
    let e: Vec<(Box<str>, u64)> = entries(keys.clone());
    let md = model(&e);
    let bh = DynBH::pick(&mut cx.rng, n);
    cx.describe(format!("string shape={shape} n={} hasher={:?}", e.len(), bh.kind));
    let present: Vec<Box<str>> = md.keys().cloned().collect();
    let mut ask = Box::<str>::probes(&mut cx.rng, &present, 12);
    ask.extend(present.iter().take(300).cloned());
    string_maps!(u64, e, bh, |name, m| { share_map!(cx, name, Box<str>, str, u64, m, md, ask) });
    let ms: BTreeSet<Box<str>> = keys.iter().cloned().collect();
    let other: FzHashSet<Box<str>> = ask.iter().cloned().collect();
    string_sets!(keys, bh, |name, m| { share_set!(cx, name, Box<str>, str, m, ms, ask, other.clone()) });
}

/// Key constructors that take their time, for statics that are initialised on first use.
fn late(i: u64) -> Slow {
    jitter();
    if i % 5 == 0 {
        std::thread::yield_now();
    }
    Slow(i)
}
fn late_int(i: i32) -> i32 {
    jitter();
    i
}

/// A copy of every kind of static; each can be raced for once per process.
macro_rules! statics {
    ($($id:ident $n:literal)*) => {
        $(mod $id {
            use super::*;
            fz_hash_map!(pub static HM: AHM<Slow, u64>, { late(1): 10, late(2): 20, late(3): 30, late(50): 500, late($n + 1000): 7, });
            fz_hash_set!(pub static HS: AHS<Slow>, { late(1), late(2), late(3), late(50), late($n + 1000), });
            fz_ordered_map!(pub static OM: AOM<Slow, u64>, { late(1): 10, late(2): 20, late(3): 30, late(50): 500, late($n + 1000): 7, });
            fz_ordered_set!(pub static OS: AOS<Slow>, { late(1), late(2), late(3), late(50), late($n + 1000), });
            fz_scalar_map!(pub static SM: ASM<i32, u64>, { late_int(1): 10, late_int(2): 20, 3: 30, 50: 500, late_int($n + 1000): 7, 60: 61, 61: 62, 62: 63, 63: 64, });
            fz_scalar_set!(pub static SS: ASS<i32>, { late_int(1), late_int(2), 3, 50, late_int($n + 1000), 60, 61, 62, 63, });
            fz_hash_map!(pub static FEW: AFEW<Slow, u64>, { late(1): 10, late(2): 20, });
            // these need no initialisation at run time
            fz_string_map!(pub static XM: AXM<&'static str, u64>, { "one": 1, "two": 2, "three": 3, "four": 4, "fifty": 50, "six hundred": 600, });
            fz_scalar_map!(pub static DM: ADM<u16, u64>, { 5_u16: 1, 6_u16: 2, 7_u16: 3, 8_u16: 4, });

            pub fn race(cx: &mut Ctx) {
                cx.describe(format!("first use of the statics of group {}", stringify!($id)));
                let x = $n as u64 + 1000;
                let want = [(1u64, 10u64), (2, 20), (3, 30), (50, 500), (x, 7)];
                let order = cx.rng.u64();
                let seen: [std::sync::Mutex<Vec<Vec<usize>>>; 1] = Default::default();
                together(cx, "statics", &|w| {
                    let mut addresses = vec![0; 9];
                    // all threads go for the same one at the same time; the order differs by group
                    for j in 0..9 {
                        let which = (j + order as usize % 9) % 9;
                        w.tick();
                        let ok = match which {
                            0 => { addresses[0] = &*HM as *const _ as usize; want.iter().all(|(k, v)| HM.get(&Slow(*k)) == Some(v)) && HM.get(&Slow(4)).is_none() && HM.len() == 5 && HM.iter().count() == 5 }
                            1 => { addresses[1] = &*HS as *const _ as usize; want.iter().all(|(k, _)| HS.contains(&Slow(*k))) && !HS.contains(&Slow(4)) && HS.len() == 5 }
                            2 => { addresses[2] = &*OM as *const _ as usize; want.iter().all(|(k, v)| OM.get(&Slow(*k)) == Some(v)) && OM.get(&Slow(4)).is_none() && OM.len() == 5 }
                            3 => { addresses[3] = &*OS as *const _ as usize; want.iter().all(|(k, _)| OS.contains(&Slow(*k))) && !OS.contains(&Slow(4)) && OS.len() == 5 }
                            4 => { addresses[4] = &*SM as *const _ as usize; want.iter().all(|(k, v)| SM.get(&(*k as i32)) == Some(v)) && SM.get(&4).is_none() && SM.len() == 9 && SM.get(&63) == Some(&64) }
                            5 => { addresses[5] = &*SS as *const _ as usize; want.iter().all(|(k, _)| SS.contains(&(*k as i32))) && !SS.contains(&4) && SS.len() == 9 }
                            6 => { addresses[6] = &*FEW as *const _ as usize; FEW.get(&Slow(1)) == Some(&10) && FEW.get(&Slow(2)) == Some(&20) && FEW.get(&Slow(3)).is_none() }
                            7 => { addresses[7] = &XM as *const _ as usize; XM.get("two") == Some(&2) && XM.get("six hundred") == Some(&600) && XM.get("ten").is_none() && XM.len() == 6 }
                            _ => { addresses[8] = &DM as *const _ as usize; DM.get(&5) == Some(&1) && DM.get(&8) == Some(&4) && DM.get(&9).is_none() && DM.len() == 4 }
                        };
                        w.expect(ok, || format!("static number {which} gives wrong results on first use"));
                    }
                    seen[0].lock().unwrap().push(addresses);
                });
                let seen = seen[0].lock().unwrap();
                cx.check(seen.iter().all(|a| *a == seen[0]), || "the threads did not see the same collection".into());
                cx.ev("statics raced for", 9);
            }
        })*
        fn races(cx: &mut Ctx) {
            // interpreted runs share the groups out among the shards
            $(if !cfg!(miri) || $n % 4 == cx.shard % 4 {
                cx.run($id::race);
            })*
        }
    };
}
statics! { g1 1 g2 2 g3 3 g4 4 g5 5 g6 6 g7 7 g8 8 }

/// A deliberate data race, to see whether the instrument watching this process reports it.
fn control() {
    struct Shared(std::cell::UnsafeCell<u64>);
    unsafe impl Sync for Shared {}
    let x = Shared(std::cell::UnsafeCell::new(0));
    let x = &x;
    let together = &std::sync::Barrier::new(2);
    std::thread::scope(|s| {
        for i in 0..2 {
            s.spawn(move || {
                for _ in 0..20 {
                    together.wait();
                    for _ in 0..20 {
                        unsafe { *x.0.get() += i };
                        std::thread::yield_now();
                    }
                }
            });
        }
    });
    println!("{}", unsafe { *x.0.get() });
}

fn main() {
    if std::env::var_os("FZMON_CONTROL").is_some() {
        return control();
    }
    let mut cx = Ctx::from_args();
    races(&mut cx);
    let n = cx.n(6000);
    for i in 0..n {
        match i % 3 {
            0 => cx.run(keyed),
            1 => cx.run(scalar),
            _ => cx.run(string),
        }
    }
    cx.finish();
}
