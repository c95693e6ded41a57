//! Oracles shared by several properties.

use std::collections::{HashMap, HashSet};
use std::fmt::Debug;

use crate::catalog::MkVal;
use crate::hashers::Bh;
use crate::keys::{Key, LARGE};
use crate::maps::MapDyn;
use crate::rng::Rng;
use crate::run::{caught, Mon};
use crate::sets::SetDyn;
use crate::{vassert, vfail};

/// The last `n` characters would do as well; keeps descriptions short.
pub fn short<T: Debug>(v: &[T]) -> String {
    let n = v.len();
    if n <= 24 {
        format!("{v:?}")
    } else {
        format!("{n} items, first {:?} ...", &v[..16])
    }
}

/// Entries for the keys, each with a value of its own.
pub fn entries<K: Key, V: MkVal>(keys: &[K], salt: u64) -> Vec<(K, V)> {
    keys.iter().enumerate().map(|(i, k)| (k.clone(), V::mk(salt + i as u64))).collect()
}

/// The same, with new instances of the keys.
pub fn fresh_entries<K: Key, V: MkVal>(keys: &[K], salt: u64) -> Vec<(K, V)> {
    keys.iter().enumerate().map(|(i, k)| (k.variant(i as u64), V::mk(salt + i as u64))).collect()
}

/// Adds entries that repeat keys, and mixes them in.
pub fn with_repeats<K: Key, V: MkVal>(rng: &mut Rng, e: &mut Vec<(K, V)>, salt: u64) -> usize {
    let n = e.len();
    if n == 0 {
        return 0;
    }
    let r = match rng.below(4) {
        0 => 1,
        1 => rng.range(1, n),
        2 => rng.range(1, 5),
        _ => 2 * n,
    };
    for i in 0..r {
        let k = e[rng.below(n)].0.variant(i as u64 + 1);
        e.push((k, V::mk(salt + 100_000 + i as u64)));
    }
    match rng.below(3) {
        0 => {}
        1 => e.reverse(),
        _ => rng.shuffle(e),
    }
    r
}

pub struct MapModel<K, V> {
    /// key -> last value
    pub map: HashMap<K, V>,
    /// the instances supplied of each key
    pub instances: HashSet<(K, u64)>,
}

impl<K: Key, V: MkVal> MapModel<K, V> {
    pub fn of(e: &[(K, V)]) -> Self {
        MapModel { map: e.iter().cloned().collect(), instances: e.iter().map(|(k, _)| (k.clone(), k.instance())).collect() }
    }
}

/// How many keys to look up: all, unless the keys of a large collection may well have few different slices.
fn get_limit(what: &str, n: usize) -> usize {
    if n > LARGE && what.contains("Slice") {
        2000
    } else {
        usize::MAX
    }
}

/// Every read access for every probe, against the model.
pub fn check_map_lookups<K: Key, V: MkVal>(what: &str, m: &mut dyn MapDyn<K, V>, model: &MapModel<K, V>, probes: &[K], mon: &mut Mon) {
    let n = model.map.len();
    vassert!(m.d_len() == n, "{what}: len is {}, expected {n}", m.d_len());
    vassert!(m.d_is_empty() == (n == 0), "{what}: is_empty is {} with {n} entries", m.d_is_empty());
    let stored: HashSet<*const K> = if std::mem::size_of::<K>() > 0 { m.d_iter().iter().map(|x| x.0 as *const K).collect() } else { HashSet::new() };
    let sized_v = std::mem::size_of::<V>() > 0;
    let mut present = 0;
    for (i, k) in probes.iter().enumerate() {
        let want = model.map.get(k);
        present += u64::from(want.is_some());
        let got = m.d_get(k);
        vassert!(got == want, "{what}: get({k:?}) is {got:?}, expected {want:?}");
        let got_ptr = got.map(|x| x as *const V);
        let c = m.d_contains(k);
        vassert!(c == want.is_some(), "{what}: contains_key({k:?}) is {c}, expected {}", want.is_some());
        match (m.d_get_kv(k), want) {
            (None, None) => {}
            (Some((gk, gv)), Some(w)) => {
                vassert!(gk == k, "{what}: get_key_value({k:?}) returns key {gk:?}");
                vassert!(gv == w, "{what}: get_key_value({k:?}) returns value {gv:?}, expected {w:?}");
                vassert!(!sized_v || Some(gv as *const V) == got_ptr, "{what}: get and get_key_value of {k:?} return different storage");
                vassert!(stored.is_empty() || stored.contains(&(gk as *const K)), "{what}: the key get_key_value({k:?}) returns isn't one the map holds");
                vassert!(model.instances.contains(&(gk.clone(), gk.instance())), "{what}: get_key_value({k:?}) returns a key that wasn't supplied");
            }
            (g, w) => vfail!("{what}: get_key_value({k:?}) is {g:?}, expected value {w:?}"),
        }
        if i % 2 == 0 {
            let g = m.d_get_mut(k);
            vassert!(g.as_deref() == want, "{what}: get_mut({k:?}) is {g:?}, expected {want:?}");
            vassert!(!sized_v || g.map(|x| x as *const V) == got_ptr, "{what}: get and get_mut of {k:?} return different storage");
        }
        if want.is_some() || i % 8 == 0 {
            match (caught(|| m.d_index(k.clone()).clone()), want) {
                (Ok(v), Some(w)) => vassert!(v == *w, "{what}: indexing by {k:?} is {v:?}, expected {w:?}"),
                (Err(_), None) => {}
                (Ok(v), None) => vfail!("{what}: indexing by missing key {k:?} gives {v:?}"),
                (Err(e), Some(_)) => vfail!("{what}: indexing by {k:?} fails: {e}"),
            }
        }
    }
    // every key, by get alone
    let limit = get_limit(what, n);
    for (k, w) in model.map.iter().take(limit) {
        let g = m.d_get(k);
        vassert!(g == Some(w), "{what}: get({k:?}) is {g:?}, expected {w:?}");
    }
    mon.ev("keys looked up", (probes.len() + n.min(limit)) as u64);
    mon.ev("of them present", present + n.min(limit) as u64);
    mon.ev("of them absent", probes.len() as u64 - present);
}

pub fn check_set_lookups<T: Key>(what: &str, s: &dyn SetDyn<T>, model: &HashSet<T>, instances: &HashSet<(T, u64)>, probes: &[T], mon: &mut Mon) {
    let n = model.len();
    vassert!(s.d_len() == n, "{what}: len is {}, expected {n}", s.d_len());
    vassert!(s.d_is_empty() == (n == 0), "{what}: is_empty is {} with {n} values", s.d_is_empty());
    let stored: HashSet<*const T> = if std::mem::size_of::<T>() > 0 { s.d_iter().iter().map(|x| *x as *const T).collect() } else { HashSet::new() };
    let mut present = 0;
    for k in probes {
        let want = model.contains(k);
        present += u64::from(want);
        let c = s.d_contains(k);
        vassert!(c == want, "{what}: contains({k:?}) is {c}, expected {want}");
        let c = s.d_contains_trait(k);
        vassert!(c == want, "{what}: Set::contains({k:?}) is {c}, expected {want}");
        let g = s.d_get(k);
        vassert!(g.is_some() == want, "{what}: get({k:?}) is {g:?}, expected it to be {}", if want { "present" } else { "absent" });
        if let Some(g) = g {
            vassert!(g == k, "{what}: get({k:?}) returns {g:?}");
            vassert!(stored.is_empty() || stored.contains(&(g as *const T)), "{what}: the value get({k:?}) returns isn't one the set holds");
            vassert!(instances.contains(&(g.clone(), g.instance())), "{what}: get({k:?}) returns a value that wasn't supplied");
        }
    }
    let limit = get_limit(what, n);
    for k in model.iter().take(limit) {
        vassert!(s.d_contains(k), "{what}: contains({k:?}) is false for a value it was built from");
        vassert!(s.d_get(k) == Some(k), "{what}: get({k:?}) is {:?} for a value it was built from", s.d_get(k));
    }
    mon.ev("values looked up", (probes.len() + n.min(limit)) as u64);
    mon.ev("of them present", present + n.min(limit) as u64);
    mon.ev("of them absent", probes.len() as u64 - present);
}

pub fn describe_case<K: Key>(spec: &str, keys: &[K], shape: &str, bh: &Bh) -> String {
    format!("{spec} of {} ({shape}), hasher {bh:?}: {}", K::NAME, short(keys))
}
