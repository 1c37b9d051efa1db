//! C15: how many key comparisons a lookup makes.
//!
//! Keys count the comparisons made on them. Strings can't, so the C library's memory comparison, which string
//! equality ends in, is replaced by one that counts; the string workloads use keys of one length, as strings of
//! different lengths are told apart without comparing their bytes.
use equivalent::{Comparable, Equivalent};
use frozen_collections::{SetExtras as _, FzHashMap, FzHashSet, FzOrderedMap, FzOrderedSet, FzScalarMap, FzScalarSet, FzStringMap, FzStringSet, Scalar, maps};
use fzmon::ctx::Ctx;
use fzmon::hashers::{DynBH, Kind};
use fzmon::keys::*;
use fzmon::model::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
}
static CMPS: AtomicU64 = AtomicU64::new(0);

#[inline(never)]
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    CMPS.fetch_add(1, Relaxed);
    for i in 0..n {
        // volatile, so that the loop isn't turned back into a call of memcmp
        let (x, y) = unsafe { (a.add(i).read_volatile(), b.add(i).read_volatile()) };
        if x != y {
            return i32::from(x) - i32::from(y);
        }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    unsafe { compare(a, b, n) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    unsafe { compare(a, b, n) }
}

/// A key that counts the comparisons made on it.
#[derive(Clone, Copy, Debug)]
pub struct C(pub u64);
fn tick() {
    N.with(|n| n.set(n.get() + 1));
}
impl PartialEq for C {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for C {}
impl PartialOrd for C {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for C {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl Hash for C {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h);
    }
}
impl Scalar for C {
    fn index(&self) -> usize {
        self.0 as usize
    }
}
/// Another form to ask for a [`C`].
#[derive(Hash)]
struct Q(u64);
impl Equivalent<C> for Q {
    fn equivalent(&self, k: &C) -> bool {
        tick();
        self.0 == k.0
    }
}
impl Comparable<C> for Q {
    fn compare(&self, k: &C) -> Ordering {
        tick();
        self.0.cmp(&k.0)
    }
}

fn counted<R>(f: impl FnOnce() -> R) -> (u64, R) {
    let a = N.get();
    let r = f();
    (N.get() - a, r)
}

/// Asks about each probe through each lookup method; gives (total, most, lookups).
macro_rules! ask_map {
    ($m:ident, $probes:expr, $q:expr) => {{
        let (mut total, mut most, mut n) = (0u64, 0u64, 0u64);
        for x in $probes {
            let q = $q(*x);
            for c in [
                counted(|| $m.get(&q).is_some()).0,
                counted(|| $m.get_mut(&q).is_some()).0,
                counted(|| $m.contains_key(&q)).0,
                counted(|| $m.get_key_value(&q).is_some()).0,
            ] {
                total += c;
                most = most.max(c);
                n += 1;
            }
        }
        (total, most, n)
    }};
}
macro_rules! ask_set {
    ($m:ident, $probes:expr, $q:expr) => {{
        let (mut total, mut most, mut n) = (0u64, 0u64, 0u64);
        for x in $probes {
            let q = $q(*x);
            for c in [counted(|| $m.get(&q).is_some()).0, counted(|| $m.contains(&q)).0] {
                total += c;
                most = most.max(c);
                n += 1;
            }
        }
        (total, most, n)
    }};
}

fn logarithmic(cx: &mut Ctx, name: &str, what: &str, n: usize, (total, most, k): (u64, u64, u64)) {
    let log = (usize::BITS - n.leading_zeros()) as u64; // ceil(log2(n + 1))
    cx.check(most <= 2 * log + 4, || format!("{name}: a lookup of a {what} key among {n} made {most} comparisons (log2: {log})"));
    cx.ev("comparisons seen", total);
    cx.ev("ordered lookups", k);
}

/// Few on average: the bound is several times what a hash table no fuller than its size makes.
const FEW: f64 = 4.0;

fn constant(cx: &mut Ctx, name: &str, what: &str, n: usize, (total, most, k): (u64, u64, u64)) {
    if k == 0 {
        return;
    }
    let avg = total as f64 / k as f64;
    if n >= 24 {
        // the default hasher is seeded at random and less even than the monitor's own
        let few = if name.contains("default") || name == "fz_hash_map!" { 3.0 * FEW } else { FEW };
        cx.check(avg <= few, || format!("{name}: lookups of {what} keys among {n} made {avg:.2} comparisons on average (most: {most})"));
    }
    // small collections are judged together, at the end
    cx.ev(&format!("sum {name} {what}"), total);
    cx.ev(&format!("lookups {name} {what}"), k);
    cx.ev("comparisons seen", total);
    cx.ev("hash lookups", k);
}

fn none(cx: &mut Ctx, name: &str, what: &str, n: usize, (_, most, k): (u64, u64, u64)) {
    cx.check(most == 0, || format!("{name}: a lookup of a {what} key among {n} compact scalars made {most} comparisons"));
    cx.ev("compact scalar lookups", k);
}

fn absent(cx: &mut Ctx, keys: &BTreeSet<u64>, n: usize) -> Vec<u64> {
    let v: Vec<u64> = keys.iter().copied().collect();
    let mut out = vec![];
    for p in u64::probes(&mut cx.rng, &v, n) {
        if !keys.contains(&p) {
            out.push(p);
        }
    }
    out
}

fn some(cx: &mut Ctx, v: &[u64], most: usize) -> Vec<u64> {
    if v.len() <= most {
        return v.to_vec();
    }
    let mut r: Vec<u64> = (0..most).map(|_| *cx.rng.pick(v)).collect();
    r.extend([v[0], v[v.len() - 1], v[v.len() / 2]]);
    r
}

fn judge_ints(cx: &mut Ctx, n: usize, shape_of: u64) {
    let (keys, shape) = match shape_of {
        0 => ((0..n as u64).map(|i| fzmon::rng::mix(i, 77)).collect::<Vec<_>>(), "random"),
        _ => u64::list(&mut cx.rng, n),
    };
    let set: BTreeSet<u64> = keys.iter().copied().collect();
    let n = set.len();
    cx.describe(format!("counted keys shape={shape} n={n}"));
    let all: Vec<u64> = set.iter().copied().collect();
    let present = some(cx, &all, 2000);
    let np = 40 + n.min(1000);
    let missing = absent(cx, &set, np);
    let e: Vec<(C, u64)> = keys.iter().map(|k| (C(*k), *k)).collect();
    let ks: Vec<C> = keys.iter().map(|k| C(*k)).collect();
    for (what, probes) in [("present", &present), ("absent", &missing)] {
        let mut m = FzOrderedMap::new(e.clone());
        let r = ask_map!(m, probes, C);
        logarithmic(cx, "FzOrderedMap", what, n, r);
        let r = ask_map!(m, probes, Q);
        logarithmic(cx, "FzOrderedMap (equivalent form)", what, n, r);
        let mut m = maps::EytzingerSearchMap::new(e.clone());
        let r = ask_map!(m, probes, C);
        logarithmic(cx, "EytzingerSearchMap", what, n, r);
        let s = FzOrderedSet::new(ks.clone());
        let r = ask_set!(s, probes, C);
        logarithmic(cx, "FzOrderedSet", what, n, r);
        let bh = DynBH { kind: Kind::Good, seed: cx.rng.u64() };
        let mut m = FzHashMap::with_hasher(e.clone(), bh.clone());
        let r = ask_map!(m, probes, C);
        constant(cx, "FzHashMap", what, n, r);
        let r = ask_map!(m, probes, Q);
        constant(cx, "FzHashMap (equivalent form)", what, n, r);
        // the default hasher isn't perfect for integers in regular patterns
        if shape == "random" {
            let mut m = FzHashMap::new(e.clone());
            let r = ask_map!(m, probes, C);
            constant(cx, "FzHashMap(default hasher)", what, n, r);
        }
        let s = FzHashSet::with_hasher(ks.clone(), bh.clone());
        let r = ask_set!(s, probes, C);
        constant(cx, "FzHashSet", what, n, r);
        let (lo, hi) = (all.first().copied().unwrap_or(0), all.last().copied().unwrap_or(0));
        let mut m = FzScalarMap::new(e.clone());
        let s = FzScalarSet::new(ks.clone());
        let rm = ask_map!(m, probes, C);
        let rs = ask_set!(s, probes, C);
        if n > 0 && hi - lo < n as u64 {
            // a contiguous range
            none(cx, "FzScalarMap", what, n, rm);
            none(cx, "FzScalarSet", what, n, rs);
            let mut d = maps::DenseScalarLookupMap::new(e.clone()).expect("contiguous keys");
            let r = ask_map!(d, probes, C);
            none(cx, "DenseScalarLookupMap", what, n, r);
        } else if shape == "random" || shape == "sparse" {
            constant(cx, "FzScalarMap", what, n, rm);
            constant(cx, "FzScalarSet", what, n, rs);
        }
    }
    if n > 1 {
        cx.distinct(situation("ints", all.iter().take(500)));
    }
}

fn ints(cx: &mut Ctx) {
    let max = if cx.rng.chance(1, 12) { 4200 } else { 600 };
    let n = size(&mut cx.rng, max);
    judge_ints(cx, n, 1);
}

fn fill(i: u64, w: usize) -> String {
    format!("{:0>w$}", i % 10u64.pow(w as u32))
}

fn strings(cx: &mut Ctx, n: usize) {
    let kind = cx.rng.below(9);
    strings_of(cx, n, kind);
}

fn strings_of(cx: &mut Ctx, n: usize, kind: u64) {
    let salt = cx.rng.u64();
    let code = |i: u64| fzmon::rng::mix(i, salt);
    let mut keys: BTreeSet<String> = (0..n as u64)
        .map(|i| match kind {
            0 => format!("key_{i:08}"),
            1 => format!("{:016x}", code(i)),
            2 => format!("{:010x}-tail", code(i) & 0xff_ffff_ffff),
            3 => format!("head-{:012x}", code(i) & 0xffff_ffff_ffff),
            4 => (0..24).map(|b| if (i >> b) & 1 == 1 { "#-" } else { "--" }).collect(),
            5 => format!("{}é{}", fill(code(i), 6), fill(i, 9)),
            // a few of them alike where most of them differ
            6 if i % 25 == 0 => format!("www.{i:012x}"),
            6 => format!("{:016x}", code(i)),
            7 if i % 25 == 0 => format!("{i:012x}.com"),
            7 => format!("{:016x}", code(i)),
            _ if i % 25 == 0 => format!("www.{i:012x}.com"),
            _ => format!("{:08x}{i:04x}{:08x}", code(i) >> 32, code(i) & 0xffff_ffff),
        })
        .collect();
    // of another length, such that the parts can be counted from the end
    if kind >= 7 && n > 100 {
        keys.insert(format!("{:040x}", salt));
    }
    let n = keys.len();
    cx.describe(format!("strings of one length, kind={kind} n={n}"));
    let all: Vec<&String> = keys.iter().collect();
    let present: Vec<String> = (0..n.min(2000)).map(|i| if n <= 2000 { all[i].clone() } else { (*cx.rng.pick(&all)).clone() }).collect();
    // absent, and of the same length
    let mut missing: Vec<String> = vec![];
    for _ in 0..60 + n.min(1000) {
        let Some(p) = present.get(cx.rng.idx(present.len().max(1))) else { break };
        let mut b = p.clone().into_bytes();
        for _ in 0..cx.rng.range(1, 9) {
            let i = cx.rng.idx(b.len());
            if b[i] < 0x80 {
                b[i] = *cx.rng.pick(b"0123456789abcdef-#xyz");
            }
        }
        let s = String::from_utf8(b).unwrap();
        if !keys.contains(&s) {
            missing.push(s);
        }
    }
    let e: Vec<(String, u64)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), i as u64)).collect();
    let count = |f: &mut dyn FnMut() -> bool| {
        let a = CMPS.load(Relaxed);
        std::hint::black_box(f());
        CMPS.load(Relaxed) - a
    };
    let bh = DynBH { kind: Kind::Good, seed: salt };
    let mut m = FzStringMap::<Box<str>, u64, _>::with_hasher(e.clone(), bh.clone());
    let mut d = FzStringMap::<Box<str>, u64>::new(e.clone());
    let s = FzStringSet::<Box<str>, _>::with_hasher(keys.iter().cloned().collect(), bh);
    for (what, probes) in [("present", &present), ("absent", &missing)] {
        macro_rules! tally {
            ($name:expr, $($f:expr),*) => {{
                let (mut total, mut most, mut k) = (0, 0, 0);
                for p in probes {
                    $({
                        let c = count(&mut || $f(p));
                        total += c;
                        most = most.max(c);
                        k += 1;
                    })*
                }
                if what == "present" {
                    // a hit can't be told without comparing: if the counter hasn't seen it, it can't judge
                    cx.ev(if total >= k { "string hits seen" } else { "string hits unseen" }, k);
                }
                cx.ev("string comparisons seen", total);
                constant(cx, $name, what, n, (total, most, k));
            }};
        }
        tally!("FzStringMap", |p: &String| m.get(p).is_some(), |p: &String| m.get_mut(p).is_some(), |p: &String| m.contains_key(p), |p: &String| m.get_key_value(p).is_some());
        tally!("FzStringMap(default hasher)", |p: &String| d.get(p).is_some(), |p: &String| d.get_mut(p).is_some());
        tally!("FzStringSet", |p: &String| s.contains(p), |p: &String| s.get(p).is_some());
    }
    if n > 1 {
        cx.distinct(situation("strings", keys.iter().take(500)));
    }
}

/// A set of strings made by a macro: of every length there are as many.
fn inline_strings(cx: &mut Ctx) {
    use frozen_collections::*;
    let s = include!("../lengths.in");
    cx.describe("macro set of 600 strings of 20 lengths".into());
    let n = s.len();
    cx.check(n == 600, || format!("inline string set holds {n}"));
    let present: Vec<String> = s.iter().map(|k| k.to_string()).collect();
    let absent: Vec<String> = present.iter().map(|k| k.chars().rev().collect()).collect();
    for (what, probes) in [("present", present), ("absent", absent)] {
        let (mut total, mut most, mut k) = (0, 0, 0);
        for p in &probes {
            let a = CMPS.load(Relaxed);
            std::hint::black_box(s.contains(p.as_str()));
            let c = CMPS.load(Relaxed) - a;
            total += c;
            most = most.max(c);
            k += 1;
        }
        constant(cx, "fz_string_set!", what, n, (total, most, k));
    }
    cx.ev("inline collections", 1);
}

/// Collections of counted keys made by the macros, which lay out their own tables.
fn inline(cx: &mut Ctx) {
    use frozen_collections::*;
    cx.describe("macro collections of counted keys".into());
    let mut m = fz_ordered_map!({ C(3): 1, C(14): 2, C(15): 3, C(92): 4, C(65): 5, C(35): 6, C(89): 7, C(79): 8, C(32): 9, C(38): 10, C(46): 11, C(26): 12, C(43): 13, C(83): 14,
        C(27): 15, C(95): 16, C(2): 17, C(88): 18, C(41): 19, C(97): 20, C(16): 21, C(93): 22, C(99): 23, C(37): 24, C(51): 25, C(5): 26, C(82): 27, C(9): 28, C(74): 29, C(94): 30,
        C(45): 31, C(30): 33, C(78): 34, C(1): 35, C(6): 36, C(40): 37, C(62): 38, C(86): 39, C(20): 40 });
    let all: Vec<u64> = (0..110).collect();
    let n = m.len();
    cx.check(n == 39, || format!("inline ordered map holds {n}"));
    let r = ask_map!(m, &all, C);
    logarithmic(cx, "fz_ordered_map!", "any", n, r);
    let s = fz_ordered_set!({ C(3), C(14), C(15), C(92), C(65), C(35), C(89), C(79), C(32), C(38), C(46), C(26), C(43), C(83), C(27), C(95), C(2), C(88), C(41), C(97), C(16), C(93),
        C(99), C(37), C(51), C(5), C(82), C(9), C(74), C(94), C(45), C(30), C(78), C(1), C(6), C(40), C(62), C(86), C(20) });
    let r = ask_set!(s, &all, C);
    logarithmic(cx, "fz_ordered_set!", "any", s.len(), r);
    let mut m = fz_hash_map!({ C(3): 1, C(14): 2, C(15): 3, C(92): 4, C(65): 5, C(35): 6, C(89): 7, C(79): 8, C(32): 9, C(38): 10, C(46): 11, C(26): 12, C(43): 13, C(83): 14,
        C(27): 15, C(95): 16, C(2): 17, C(88): 18, C(41): 19, C(97): 20, C(16): 21, C(93): 22, C(99): 23, C(37): 24, C(51): 25, C(5): 26, C(82): 27, C(9): 28, C(74): 29, C(94): 30 });
    let n = m.len();
    let r = ask_map!(m, &all, C);
    constant(cx, "fz_hash_map!", "any", n, r);
    let mut m = fz_scalar_map!({ C(3): 1, C(4): 2, C(5): 3, C(6): 4, C(7): 5, C(8): 6, C(9): 7, C(10): 8, C(11): 9, C(12): 10 });
    let n = m.len();
    let r = ask_map!(m, &all, C);
    none(cx, "fz_scalar_map! (contiguous)", "any", n, r);
    cx.ev("inline collections", 4);
}

fn main() {
    let mut cx = Ctx::from_args();
    let big = [70_000usize, 300_000, 600_000, 65_536, 131_072, 100_000, 33_000, 1_048_577];
    for (i, n) in big.iter().enumerate() {
        if i as u64 % cx.shards == cx.shard {
            cx.run(|cx| judge_ints(cx, *n, 0));
            cx.run(|cx| strings(cx, n / 3));
            for kind in 6..9 {
                cx.run(|cx| strings_of(cx, n / 6, kind));
            }
        }
    }
    cx.run(inline);
    cx.run(inline_strings);
    let n = cx.n(60_000);
    for i in 0..n {
        if i % 3 < 2 {
            cx.run(ints);
        } else {
            cx.run(|cx| {
                let max = if cx.rng.chance(1, 12) { 4200 } else { 600 };
                let n = size(&mut cx.rng, max);
                strings(cx, n);
            });
        }
    }
    // all sizes together
    cx.run(|cx| {
        cx.describe("averages over all collections".into());
        for name in ["FzHashMap", "FzHashMap (equivalent form)", "FzHashMap(default hasher)", "FzHashSet", "FzScalarMap", "FzScalarSet", "FzStringMap", "FzStringMap(default hasher)", "FzStringSet"] {
            for what in ["present", "absent"] {
                let (s, k) = (cx.count(&format!("sum {name} {what}")), cx.count(&format!("lookups {name} {what}")));
                if k > 0 {
                    cx.check(s as f64 / k as f64 <= FEW / 2.0, || format!("{name}: {s} comparisons for {k} lookups of {what} keys"));
                }
            }
        }
    });
    cx.finish();
}
