//! Reference models and the monitors comparing collections with them.
use crate::adapt::*;
use crate::ctx::{Ctx, panics};
use crate::fam::Probe;
use crate::hashers::DynBH;
use crate::keys::*;
use crate::rng::mix;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{BuildHasher, Hash};

/// Unique value per position, so that the last entry for a key can be told from the others.
pub fn entries<K: Key, V: Val>(keys: Vec<K>) -> Vec<(K, V)> {
    keys.into_iter().enumerate().map(|(i, k)| (k, V::mk(i as u64 + 1))).collect()
}

/// The last-wins dictionary.
pub fn model<K: Key, V: Val>(e: &[(K, V)]) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    for (k, v) in e {
        m.insert(k.clone(), v.clone());
    }
    m
}

pub fn fp<T: Hash>(x: &T) -> u64 {
    DynBH::default().hash_one(x)
}

/// Fingerprint of a situation: which collection, how many entries, what keys.
pub fn situation<K: Hash>(name: &str, keys: impl Iterator<Item = K>) -> u64 {
    let mut h = fp(&name);
    for k in keys {
        h = mix(h, fp(&k));
    }
    h
}

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 120 {
        let mut e = 120;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
        s.push_str("...");
    }
    s
}

/// Asks every lookup method about one key.
pub fn ask<K: Probe<Q>, Q: ?Sized, V: Val>(cx: &mut Ctx, name: &str, m: &mut dyn MapLook<K, Q, V>, k: &K, want: Option<&V>, index: bool) {
    let n = m.len();
    k.with(|q| {
        let g = m.get(q);
        cx.check(g == want, || format!("{name} (len {n}): get({}) = {}, expected {}", short(k), short(&g), short(&want)));
        let has = m.has(q);
        cx.check(has == want.is_some(), || format!("{name} (len {n}): contains_key({}) = {has}, expected {}", short(k), want.is_some()));
        let gkv = m.gkv(q);
        cx.check(gkv.map(|x| x.1) == want && gkv.is_none_or(|x| x.0 == k), || {
            format!("{name} (len {n}): get_key_value({}) = {}, expected value {}", short(k), short(&gkv), short(&want))
        });
        let gm = m.get_mut(q);
        cx.check(gm.as_deref() == want, || format!("{name} (len {n}): get_mut({}) = {}, expected {}", short(k), short(&gm), short(&want)));
        if let Some(w) = want {
            let v = m.at(q);
            cx.check(v == w, || format!("{name} (len {n}): [{}] = {}, expected {}", short(k), short(v), short(w)));
        } else if index {
            let r = panics(|| m.at(q).clone());
            cx.check(r.is_err(), || format!("{name} (len {n}): [{}] = {}, expected a panic", short(k), short(&r)));
        }
    });
    cx.ev(if want.is_some() { "lookups_hit" } else { "lookups_miss" }, 5);
}

/// The whole lookup monitor for one map.
pub fn audit_map<K: Probe<Q>, Q: ?Sized, V: Val>(cx: &mut Ctx, name: &str, m: &mut dyn MapLook<K, Q, V>, model: &BTreeMap<K, V>, probes: &[K]) {
    let n = model.len();
    cx.check(m.len() == n, || format!("{name}: len() = {}, expected {n}", m.len()));
    cx.check(m.is_empty() == (n == 0), || format!("{name}: is_empty() = {} with {n} entries", m.is_empty()));
    for (k, v) in model {
        ask(cx, name, m, k, Some(v), false);
    }
    for (i, k) in probes.iter().enumerate() {
        ask(cx, name, m, k, model.get(k), i < 2);
    }
    // lookups must not have changed anything
    let mut all: Vec<(K, V)> = m.entries().into_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    all.sort();
    cx.check(
        all.len() == n && all.iter().zip(model).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1),
        || format!("{name}: holds {}, expected {}", short(&all), short(model)),
    );
    cx.ev("maps", 1);
    if n > 0 {
        cx.ev(name, 1);
        cx.distinct(situation(name, model.keys()));
    }
}

pub fn audit_set<T: Probe<Q>, Q: ?Sized>(cx: &mut Ctx, name: &str, s: &dyn SetLook<T, Q>, model: &BTreeSet<T>, probes: &[T]) {
    let n = model.len();
    cx.check(s.len() == n, || format!("{name}: len() = {}, expected {n}", s.len()));
    cx.check(s.is_empty() == (n == 0), || format!("{name}: is_empty() = {} with {n} values", s.is_empty()));
    for (k, want) in model.iter().map(|k| (k, true)).chain(probes.iter().map(|k| (k, model.contains(k)))) {
        k.with(|q| {
            let has = s.has(q);
            cx.check(has == want, || format!("{name} (len {n}): contains({}) = {has}, expected {want}", short(k)));
            let g = s.get(q);
            cx.check(g.is_some() == want && g.is_none_or(|x| x == k), || format!("{name} (len {n}): get({}) = {}, expected present: {want}", short(k), short(&g)));
        });
        cx.ev(if want { "lookups_hit" } else { "lookups_miss" }, 2);
    }
    let mut all: Vec<T> = s.entries().into_iter().cloned().collect();
    all.sort();
    cx.check(all.len() == n && all.iter().zip(model).all(|(a, b)| a == b), || format!("{name}: holds {}, expected {}", short(&all), short(model)));
    cx.ev("sets", 1);
    if n > 0 {
        cx.ev(name, 1);
        cx.distinct(situation(name, model.iter()));
    }
}
