//! Monitors of traversals and of changes, for anything behind the adapters.
use crate::adapt::*;
use crate::ctx::{Ctx, panics};
use crate::fam::Probe;
use crate::iters::*;
use crate::keys::*;
use crate::model::*;
use std::collections::BTreeMap;

type X<K, V> = (Option<K>, Option<V>);
type Route<K, V> = (&'static str, for<'a> fn(&'a mut dyn MapWalk<K, V>) -> BIt<'a, X<K, V>>);

fn routes<K: Key, V: Val>() -> Vec<Route<K, V>> {
    vec![
        ("iter", |m| Box::new(Conv(m.iter(), |(k, v)| (Some(k.clone()), Some(v.clone()))))),
        ("keys", |m| Box::new(Conv(m.keys(), |k| (Some(k.clone()), None)))),
        ("values", |m| Box::new(Conv(m.values(), |v| (None, Some(v.clone()))))),
        ("&map", |m| Box::new(Conv(m.by_ref(), |(k, v)| (Some(k.clone()), Some(v.clone()))))),
        ("iter_mut", |m| Box::new(Conv(m.iter_mut(), |(k, v)| (Some(k.clone()), Some(v.clone()))))),
        ("values_mut", |m| Box::new(Conv(m.values_mut(), |v| (None, Some(v.clone()))))),
        ("&mut map", |m| Box::new(Conv(m.by_mut(), |(k, v)| (Some(k.clone()), Some(v.clone()))))),
        ("into_iter", |m| Box::new(Conv(m.into_iter(), |(k, v)| (Some(k), Some(v))))),
        ("into_keys", |m| Box::new(Conv(m.into_keys(), |k| (Some(k), None)))),
        ("into_values", |m| Box::new(Conv(m.into_values(), |v| (None, Some(v))))),
    ]
}

pub fn walk_map<K: Key, V: Val>(cx: &mut Ctx, name: &str, m: &mut dyn MapWalk<K, V>, want: &[(K, V)], exact: bool) {
    for (route, f) in routes::<K, V>() {
        let w: Vec<X<K, V>> = want
            .iter()
            .map(|(k, v)| (if route.contains("values") { None } else { Some(k.clone()) }, if route.contains("keys") { None } else { Some(v.clone()) }))
            .collect();
        let label = format!("{name}.{route}");
        audit_iter(cx, &label, &w, exact, &mut |cx, with| with(cx, f(m)));
        cx.ev(route, 1);
    }
    cx.ev(name, 1);
    for (route, d) in m.debugs() {
        cx.check(!d.is_empty(), || format!("{name}: empty debug rendering of {route}"));
    }
    if !want.is_empty() {
        cx.distinct(situation(name, want.iter().map(|x| &x.0)));
    }
    cx.ev("maps", 1);
}

pub fn walk_set<T: Key>(cx: &mut Ctx, name: &str, s: &dyn SetWalk<T>, want: &[T], exact: bool) {
    for route in ["iter", "&set", "into_iter"] {
        let label = format!("{name}.{route}");
        audit_iter(cx, &label, want, exact, &mut |cx, with| {
            let it: BIt<'_, T> = match route {
                "iter" => Box::new(Conv(s.iter(), |x| x.clone())),
                "&set" => Box::new(Conv(s.by_ref(), |x| x.clone())),
                _ => Box::new(Conv(s.into_iter(), |x| x)),
            };
            with(cx, it);
        });
        cx.ev(route, 1);
    }
    cx.ev(name, 1);
    if !want.is_empty() {
        cx.distinct(situation(name, want.iter()));
    }
    cx.ev("sets", 1);
}

/// A random history of changes, mirrored on the model, with the whole map compared after each.
pub fn change<K: Probe<Q>, Q: ?Sized, V: Val>(cx: &mut Ctx, name: &str, m: &mut dyn MapChange<K, Q, V>, model: &BTreeMap<K, V>, probes: &[K], steps: usize) {
    let mut model = model.clone();
    let keys: Vec<K> = model.keys().cloned().collect();
    let zst = size_of::<V>() == 0;
    let compare = |cx: &mut Ctx, m: &dyn MapChange<K, Q, V>, model: &BTreeMap<K, V>, op: &str| {
        let mut all: Vec<(K, V)> = m.entries().into_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        all.sort();
        let ok = m.len() == model.len() && all.len() == model.len() && all.iter().zip(model).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1);
        cx.check(ok, || format!("{name} after {op}: {}, expected {}", clip(&all), clip(model)));
    };
    for step in 0..steps {
        let by = step as u64 * 1000 + 7;
        let op;
        match cx.rng.below(9) {
            0 | 1 => {
                let k = if keys.is_empty() || cx.rng.chance(1, 4) {
                    if probes.is_empty() { continue }
                    cx.rng.pick(probes).clone()
                } else {
                    cx.rng.pick(&keys).clone()
                };
                op = format!("get_mut({})", clip(&k));
                let w = model.get_mut(&k);
                k.with(|q| {
                    let g = m.get_mut(q);
                    cx.check(g.as_deref() == w.as_deref(), || format!("{name}: {op} = {g:?}, expected {w:?}"));
                    if let (Some(g), Some(w)) = (g, w) {
                        g.bump(by);
                        w.bump(by);
                    }
                });
                k.with(|q| {
                    let g = m.get(q);
                    cx.check(g == model.get(&k), || format!("{name}: get({k:?}) = {g:?} after changing it, expected {:?}", model.get(&k)));
                });
                cx.ev("get_mut", 1);
            }
            2 | 3 => {
                // part of a mutable traversal
                let way = cx.rng.below(3);
                let n = keys.len();
                let stop = cx.rng.idx(n + 1);
                op = format!("{} over {stop}", ["iter_mut", "&mut", "values_mut"][way as usize]);
                if way < 2 {
                    let it = if way == 0 { m.iter_mut() } else { m.ref_mut() };
                    let mut it = it;
                    for _ in 0..stop {
                        match it.next() {
                            Some((k, v)) => {
                                if cx.rng.chance(2, 3) {
                                    v.bump(by);
                                    match model.get_mut(k) {
                                        Some(w) => w.bump(by),
                                        None => cx.fail(format!("{name}: {op} yields the key {k:?}")),
                                    }
                                }
                            }
                            None => cx.fail(format!("{name}: {op} ended early")),
                        }
                    }
                } else {
                    let mut it = m.values_mut();
                    for _ in 0..stop {
                        match it.next() {
                            Some(v) => {
                                // the values are unique, unless they are units
                                let w = model.values_mut().find(|w| **w == *v);
                                v.bump(by);
                                match w {
                                    Some(w) => w.bump(by),
                                    None => cx.fail(format!("{name}: {op} yields an unknown value")),
                                }
                            }
                            None => cx.fail(format!("{name}: {op} ended early")),
                        }
                    }
                }
                cx.ev("mutable traversals", 1);
            }
            4 => {
                // a complete mutable traversal, holding all references at once
                op = "holding all of iter_mut".to_string();
                let mut all = vec![];
                let mut it = m.iter_mut();
                while let Some(x) = it.next() {
                    all.push(x);
                }
                let mut ps: Vec<usize> = all.iter().map(|x| std::ptr::from_ref(&*x.1) as usize).collect();
                ps.sort_unstable();
                ps.dedup();
                cx.check(zst || ps.len() == keys.len(), || format!("{name}: iter_mut gives aliasing references"));
                for (k, v) in all {
                    v.bump(by);
                    if let Some(w) = model.get_mut(k) {
                        w.bump(by);
                    }
                }
                cx.ev("mutable traversals", 1);
            }
            _ => {
                // several at once
                let n = *cx.rng.pick(DISJOINT_SIZES);
                let mut req: Vec<K> = vec![];
                let mut dup = false;
                for _ in 0..n {
                    let k = if keys.is_empty() || cx.rng.chance(1, 4) { if probes.is_empty() { continue } else { cx.rng.pick(probes).clone() } } else { cx.rng.pick(&keys).clone() };
                    if !req.contains(&k) {
                        req.push(k);
                    }
                }
                // keep a size there is an array for
                while !DISJOINT_SIZES.contains(&req.len()) {
                    req.pop();
                }
                if req.len() >= 2 && cx.rng.chance(1, 3) {
                    let i = cx.rng.idx(req.len());
                    let j = cx.rng.idx(req.len());
                    if i != j && model.contains_key(&req[i]) {
                        req[j] = req[i].clone();
                        dup = true;
                    }
                }
                let unchecked = !dup && cx.rng.chance(1, 3);
                op = format!("disjoint{} {}", if unchecked { " unchecked" } else { "" }, clip(&req));
                let want: Vec<Option<V>> = req.iter().map(|k| model.get(k).cloned()).collect();
                K::with_many(&req, |qs| {
                    if dup {
                        let r = panics(|| m.disjoint(qs).len());
                        cx.check(r.is_err(), || format!("{name}: {op} doesn't panic"));
                        cx.ev("disjoint with repetition", 1);
                        return;
                    }
                    let got = if unchecked { unsafe { m.disjoint_unchecked(qs) } } else { m.disjoint(qs) };
                    let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.as_deref() == w.as_ref());
                    cx.check(ok, || format!("{name}: {op} = {}, expected {}", clip(&got), clip(&want)));
                    let mut ps: Vec<usize> = got.iter().flatten().map(|v| std::ptr::from_ref(&**v) as usize).collect();
                    let l = ps.len();
                    ps.sort_unstable();
                    ps.dedup();
                    cx.check(zst || ps.len() == l, || format!("{name}: {op} gives aliasing references"));
                    // write through all of them while all are live
                    let mut got = got;
                    for (i, g) in got.iter_mut().enumerate().rev() {
                        if let Some(g) = g {
                            g.bump(by + i as u64);
                        }
                    }
                    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                        if let (Some(g), Some(w)) = (g, w) {
                            let mut w = w.clone();
                            w.bump(by + i as u64);
                            cx.check(**g == w, || format!("{name}: {op}: slot {i} reads {g:?} after writing {w:?}"));
                        }
                    }
                    drop(got);
                    for (i, k) in req.iter().enumerate() {
                        if let Some(w) = model.get_mut(k) {
                            w.bump(by + i as u64);
                        }
                    }
                    cx.ev(if unchecked { "disjoint unchecked" } else { "disjoint" }, 1);
                });
            }
        }
        compare(cx, m, &model, &op);
        cx.ev("changes", 1);
    }
    // what lookups see at the end
    for (k, v) in &model {
        ask(cx, name, m, k, Some(v), false);
    }
    if !model.is_empty() {
        cx.distinct(crate::rng::mix(situation(name, model.keys()), fp(&format!("{:?}", model.values().next()))));
        cx.ev(name, 1);
    }
}

