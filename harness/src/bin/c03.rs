//! C03: collections made by the macros against what is written in the source.
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::fam::Probe;
use fzmon::keys::*;
use fzmon::model::*;

/// Whether the collection may be a table laid out by the macro with the hash function of the machine the macro ran on.
#[allow(dead_code)]
fn hashed_at_build(desc: &str, len: usize) -> bool {
    desc.contains(" string literals") && len > 3
}

/// Known finding D10: where that function gives other results on the machine the program runs on, keys are not found.
/// Everything else must hold.
#[allow(dead_code)]
fn lost_keys_map<K: Probe<Q>, Q: ?Sized, V: Val>(cx: &mut Ctx, m: &mut dyn MapLook<K, Q, V>, md: &std::collections::BTreeMap<K, V>, probes: &[K]) {
    cx.check(m.len() == md.len(), || format!("macro map: len() = {}, expected {}", m.len(), md.len()));
    let mut all: Vec<(K, V)> = m.entries().into_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    all.sort();
    cx.check(all.iter().map(|x| (&x.0, &x.1)).eq(md.iter()), || format!("macro map: holds {all:?}, expected {md:?}"));
    let mut lost = 0;
    for k in md.keys().chain(probes) {
        k.with(|q| {
            let g = m.get(q).cloned();
            lost += u64::from(g.is_none() && md.contains_key(k));
            cx.check(g.is_none() || g.as_ref() == md.get(k), || format!("macro map: get({k:?}) = {g:?}, expected {:?}", md.get(k)));
        });
    }
    lost_keys(cx, lost, md.len());
}

#[allow(dead_code)]
fn lost_keys_set<K: Probe<Q>, Q: ?Sized>(cx: &mut Ctx, m: &dyn SetLook<K, Q>, md: &std::collections::BTreeSet<K>, probes: &[K]) {
    cx.check(m.len() == md.len(), || format!("macro set: len() = {}, expected {}", m.len(), md.len()));
    let mut all: Vec<K> = m.entries().into_iter().cloned().collect();
    all.sort();
    cx.check(all.iter().eq(md.iter()), || format!("macro set: holds {all:?}, expected {md:?}"));
    let mut lost = 0;
    for k in md.iter().chain(probes) {
        k.with(|q| {
            let has = m.has(q);
            lost += u64::from(!has && md.contains(k));
            cx.check(!has || md.contains(k), || format!("macro set: contains({k:?}), which is not in it"));
        });
    }
    lost_keys(cx, lost, md.len());
}

#[allow(dead_code)]
fn lost_keys(cx: &mut Ctx, lost: u64, of: usize) {
    if lost > 0 {
        let id = if cfg!(target_endian = "big") { "D10-big-endian" } else { "D10-32-bit" };
        cx.finding(id, format!("{lost} of {of} keys not found"));
        cx.ev("macro collections losing keys (D10)", 1);
    } else {
        cx.ev("macro collections hashed at build time", 1);
    }
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    macro_rules! visit_map {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty, $V:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<($K, $V)> = $e;
                let md = model(&e);
                let present: Vec<$K> = md.keys().cloned().collect();
                let probes = <$K>::probes(&mut cx.rng, &present, 300);
                let m = $m;
                if FOREIGN && hashed_at_build($desc, m.len()) {
                    return lost_keys_map::<$K, $Q, $V>(cx, &mut In(m), &md, &probes);
                }
                audit_map::<$K, $Q, $V>(cx, "macro map", &mut In(m), &md, &probes);
                let w: String = $desc.split(" of ").next().unwrap().into();
                cx.ev(&w, 1);
                cx.distinct(fp(&$desc));
                cx.sample(|| $desc.into());
            });
        };
    }
    macro_rules! visit_set {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<$K> = $e;
                let md: std::collections::BTreeSet<$K> = e.into_iter().collect();
                let present: Vec<$K> = md.iter().cloned().collect();
                let probes = <$K>::probes(&mut cx.rng, &present, 300);
                let m = $m;
                if FOREIGN && hashed_at_build($desc, m.len()) {
                    return lost_keys_set::<$K, $Q>(cx, &In(m), &md, &probes);
                }
                audit_set::<$K, $Q>(cx, "macro set", &In(m), &md, &probes);
                let w: String = $desc.split(" of ").next().unwrap().into();
                cx.ev(&w, 1);
                cx.distinct(fp(&$desc));
                cx.sample(|| $desc.into());
            });
        };
    }
    include!(env!("FZMON_FIXTURE"));
}

/// Expression keys that turn out to be equal, where the macro has picked a fixed-size array.
/// Known finding D6: these panic instead of keeping the last entry.
fn equal_expressions(cx: &mut Ctx) {
    use frozen_collections::*;
    use std::convert::identity;
    macro_rules! one {
        ($id:literal, $K:ty, $e:expr, $m:expr) => {
            cx.run(|cx| {
                cx.describe(concat!("equal expression keys, ", $id).into());
                let md = model::<$K, u64>(&$e);
                match fzmon::ctx::panics(|| $m) {
                    Ok(m) => audit_map::<$K, $K, u64>(cx, "macro map", &mut In(m), &md, &[]),
                    Err(p) => cx.finding($id, p),
                }
                cx.ev("equal expression keys", 1);
            });
        };
    }
    if cx.shard == 0 {
        one!("D6-hash-scan", i16, [(5, 1), (6, 2), (5, 3)], fz_hash_map!({identity(5i16): 1u64, identity(6i16): 2u64, identity(5i16): 3u64}));
        one!("D6-ordered-scan", i16, [(5, 1), (6, 2), (5, 3)], fz_ordered_map!({identity(5i16): 1u64, identity(6i16): 2u64, identity(5i16): 3u64}));
        one!(
            "D6-ordered",
            i16,
            [(5, 1), (6, 2), (7, 3), (8, 4), (5, 5)],
            fz_ordered_map!({identity(5i16): 1u64, identity(6i16): 2u64, identity(7i16): 3u64, identity(8i16): 4u64, identity(5i16): 5u64})
        );
        one!("D6-scalar-scan", i16, [(5, 1), (6, 2), (7, 3), (5, 4)], fz_scalar_map!({identity(5i16): 1u64, 6i16: 2u64, 7i16: 3u64, identity(5i16): 4u64}));
    }
}

fn main() {
    #[allow(unused_mut)]
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    fixture::run(&mut cx);
    equal_expressions(&mut cx);
    cx.finish();
}
