//! C08: equality depends only on contents.

use std::collections::HashSet;
use std::fmt::Debug;

use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::{CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap};
use frozen_collections_core::specialized_sets::Set;
use vh::algebra::{element_pairs, int_pair, list, str_pair, IntSet, PairJob, StrSet, TestSet};
use vh::catalog::{every_map, every_set, MapJob, MkVal, SetJob};
use vh::checks::{describe_case, entries, with_repeats};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key};
use vh::maps::{MapDyn, MapSpec};
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::sets::{SetDyn, SetSpec};
use vh::vassert;

/// Compares both ways; None if the two have different types.
fn map_eq<K: Key, V: MkVal>(what: &str, a: &dyn MapDyn<K, V>, b: &dyn MapDyn<K, V>) -> Option<bool> {
    let (e, ne) = a.d_eq(b)?;
    let (e2, ne2) = b.d_eq(a)?;
    vassert!(e != ne && e2 != ne2, "{what}: == is {e}, != is {ne}; the other way round {e2}, {ne2}");
    vassert!(e == e2, "{what}: == is {e}, the other way round {e2}");
    Some(e)
}
fn set_eq<T: Key>(what: &str, a: &dyn SetDyn<T>, b: &dyn SetDyn<T>) -> Option<bool> {
    let (e, ne) = a.d_eq(b)?;
    let (e2, ne2) = b.d_eq(a)?;
    vassert!(e != ne && e2 != ne2, "{what}: == is {e}, != is {ne}; the other way round {e2}, {ne2}");
    vassert!(e == e2, "{what}: == is {e}, the other way round {e2}");
    Some(e)
}

/// Another list of keys: how it differs from the first.
fn change<K: Key>(rng: &mut Rng, keys: &[K], pool: &[K]) -> Option<(Vec<K>, &'static str)> {
    let mut k = keys.to_vec();
    let have: HashSet<&K> = keys.iter().collect();
    let fresh: Vec<&K> = pool.iter().filter(|x| !have.contains(x)).collect();
    match rng.below(4) {
        0 => {
            if k.is_empty() {
                return None;
            }
            let i = rng.below(k.len());
            k.remove(i);
            Some((k, "one key fewer"))
        }
        1 => {
            if fresh.is_empty() {
                return None;
            }
            k.push((*rng.pick(&fresh)).clone());
            Some((k, "one key more"))
        }
        2 => {
            if fresh.is_empty() || k.is_empty() {
                return None;
            }
            let i = rng.below(k.len());
            k[i] = (*rng.pick(&fresh)).clone();
            Some((k, "one key replaced"))
        }
        _ => {
            // as many keys, most of them others
            let mut f: Vec<K> = fresh.into_iter().cloned().collect();
            f.sort_by_key(|x| format!("{x:?}"));
            f.dedup();
            f.truncate(k.len());
            if f.is_empty() {
                return None;
            }
            let keep = k.len() - f.len();
            k.truncate(keep);
            k.extend(f);
            Some((k, "many keys replaced"))
        }
    }
}

struct Job;

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let n = gen_size(rng, 600);
        let (keys, shape) = K::gen(rng, n);
        let mut e = entries::<K, V>(&keys, 5);
        let fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        let Some(spec) = (if fitting.is_empty() { None } else { Some(*rng.pick(&fitting)) }) else { return };
        let bh = Bh::any(rng);
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, K::NAME, V::NAME, shape, &keys), keys.len() >= 2);
        mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
        mon.ev(spec.name, 1);
        let a = (spec.build)(e.clone(), rng, bh.clone());
        vassert!(map_eq(spec.name, &*a, &*a) == Some(true), "{}: doesn't equal itself", spec.name);
        let c = a.d_clone();
        vassert!(map_eq(spec.name, &*a, &*c) == Some(true), "{}: doesn't equal its clone", spec.name);
        // the same contents, otherwise built differently
        for _ in 0..4 {
            let mut f = e.clone();
            if spec.facade && rng.chance(3) && !f.is_empty() {
                // repeats that don't change the outcome
                let mut first = f.clone();
                with_repeats(rng, &mut first, 3);
                first.extend(f);
                f = first;
            } else {
                rng.shuffle(&mut f);
            }
            let other = Bh::any(rng);
            let b = (spec.build)(f, rng, other);
            if let Some(x) = map_eq(spec.name, &*a, &*b) {
                vassert!(x, "{}: doesn't equal a map of the same entries built in another way", spec.name);
                mon.ev("equal pairs", 1);
            }
        }
        // a value differs
        if std::mem::size_of::<V>() > 0 && !e.is_empty() {
            for _ in 0..2 {
                let i = rng.below(e.len());
                let old = e[i].1.clone();
                e[i].1 = V::mk(777_777_777);
                if e[i].1 == old {
                    continue;
                }
                let b = (spec.build)(e.clone(), rng, bh.clone());
                if let Some(x) = map_eq(spec.name, &*a, &*b) {
                    vassert!(!x, "{}: equals a map with another value for {:?}", spec.name, e[i].0);
                    mon.ev("unequal pairs", 1);
                }
                let mut c = a.d_clone();
                let k = e[i].0.clone();
                *c.d_index_mut(k) = V::mk(777_777_777);
                vassert!(map_eq(spec.name, &*a, &*c) == Some(false), "{}: equals its clone after a value changed in the clone", spec.name);
                mon.ev("unequal pairs", 1);
                e[i].1 = old;
            }
            // values exchanged between two keys
            if e.len() >= 2 {
                let i = rng.below(e.len() - 1);
                let mut f = e.clone();
                let t = f[i].1.clone();
                f[i].1 = f[i + 1].1.clone();
                f[i + 1].1 = t;
                if f[i].1 != e[i].1 {
                    let b = (spec.build)(f, rng, bh.clone());
                    if let Some(x) = map_eq(spec.name, &*a, &*b) {
                        vassert!(!x, "{}: equals a map with two values exchanged", spec.name);
                        mon.ev("unequal pairs", 1);
                    }
                }
            }
        }
        // the keys differ, the values are the same
        let pool = K::probes(rng, &keys, 60);
        for _ in 0..4 {
            if let Some((k2, how)) = change(rng, &keys, &pool) {
                if !(spec.fits)(&k2) {
                    continue;
                }
                let f: Vec<(K, V)> = k2.into_iter().enumerate().map(|(i, k)| (k, e.get(i).map_or(V::mk(1), |x| x.1.clone()))).collect();
                let b = (spec.build)(f, rng, bh.clone());
                if let Some(x) = map_eq(spec.name, &*a, &*b) {
                    vassert!(!x, "{}: equals a map with {how}", spec.name);
                    mon.ev(how, 1);
                    mon.ev("unequal pairs", 1);
                }
            }
        }
    }
}

impl SetJob for Job {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        let n = gen_size(rng, 600);
        let (keys, shape) = T::gen(rng, n);
        let fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        let Some(spec) = (if fitting.is_empty() { None } else { Some(*rng.pick(&fitting)) }) else { return };
        let bh = Bh::any(rng);
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, T::NAME, shape, &keys), keys.len() >= 2);
        mon.ev(spec.name, 1);
        let a = (spec.build)(keys.clone(), rng, bh.clone());
        vassert!(set_eq(spec.name, &*a, &*a) == Some(true), "{}: doesn't equal itself", spec.name);
        let c = a.d_clone();
        vassert!(set_eq(spec.name, &*a, &*c) == Some(true), "{}: doesn't equal its clone", spec.name);
        for _ in 0..4 {
            let mut f = keys.clone();
            rng.shuffle(&mut f);
            let other = Bh::any(rng);
            let b = (spec.build)(f, rng, other);
            if let Some(x) = set_eq(spec.name, &*a, &*b) {
                vassert!(x, "{}: doesn't equal a set of the same values built in another way", spec.name);
                mon.ev("equal pairs", 1);
            }
        }
        let pool = T::probes(rng, &keys, 60);
        for _ in 0..4 {
            if let Some((k2, how)) = change(rng, &keys, &pool) {
                if !(spec.fits)(&k2) {
                    continue;
                }
                let b = (spec.build)(k2, rng, bh.clone());
                if let Some(x) = set_eq(spec.name, &*a, &*b) {
                    vassert!(!x, "{}: equals a set with {how}", spec.name);
                    mon.ev(how, 1);
                    mon.ev("unequal pairs", 1);
                }
            }
        }
    }
}

struct Pair<'a, T> {
    ma: HashSet<T>,
    mb: HashSet<T>,
    mon: &'a mut Mon,
}

impl<T: Key + Ord + Debug> PairJob<T> for Pair<'_, T> {
    fn run<A, B>(&mut self, na: &'static str, a: &A, nb: &'static str, b: &B)
    where
        A: TestSet<T>,
        B: TestSet<T>,
        for<'x> <A as Set<T>>::Iterator<'x>: Clone,
        for<'x> <B as Set<T>>::Iterator<'x>: Clone,
    {
        if let Some((e, ne)) = a.eq_any(b) {
            let want = self.ma == self.mb;
            vassert!(e == want && ne != want, "{na} == {nb} of {} and {}: == is {e}, != is {ne}", list(&self.ma), list(&self.mb));
            self.mon.ev(if want { "equal pairs of different implementations" } else { "unequal pairs of different implementations" }, 1);
            if let Some((e2, _)) = b.eq_any(a) {
                vassert!(e2 == e, "{na} == {nb} is {e}, the other way round {e2}, for {} and {}", list(&self.ma), list(&self.mb));
            }
        }
    }
}

fn pairs(i: u64, rng: &mut Rng, mon: &mut Mon) {
    macro_rules! go {
        ($t:ty, $s:ident, $pair:ident) => {{
            let (a, b, how) = element_pairs::<$t>(rng, 300);
            mon.describe(|| format!("{how}: {a:?} and {b:?}"));
            mon.case(&(how, &a, &b), !a.is_empty());
            let (ma, mb): (HashSet<$t>, HashSet<$t>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
            let (ha, hb) = (Bh::any(rng), Bh::any(rng));
            for _ in 0..5 {
                let sa = $s::build(a.clone(), rng, ha.clone());
                let sb = $s::build(b.clone(), rng, hb.clone());
                let mut a2 = a.clone();
                rng.shuffle(&mut a2);
                let sa2 = $s::build(a2, rng, hb.clone());
                $pair(&sa, &sb, &mut Pair { ma: ma.clone(), mb: mb.clone(), mon });
                $pair(&sa, &sa2, &mut Pair { ma: ma.clone(), mb: ma.clone(), mon });
            }
        }};
    }
    if i % 2 == 0 {
        go!(u32, IntSet, int_pair);
    } else {
        go!(String, StrSet, str_pair);
    }
}

/// A value that doesn't equal itself makes its map unequal, also to itself.
fn not_reflexive(rng: &mut Rng, mon: &mut Mon) {
    let n = rng.range(1, 40);
    let bad = rng.below(n);
    let nan = rng.chance(2);
    let v = |i: usize| if i == bad && nan { f64::NAN } else { i as f64 };
    let ints: Vec<(u32, f64)> = (0..n).map(|i| (i as u32, v(i))).collect();
    let strs: Vec<(String, f64)> = (0..n).map(|i| ("x".repeat(i), v(i))).collect();
    mon.describe(|| format!("{n} values, NaN: {nan}"));
    mon.case(&("nan", n, bad, nan), n > 1);
    macro_rules! go {
        ($name:literal, $m:expr) => {{
            let m = $m;
            let c = m.clone();
            #[allow(clippy::eq_op)]
            let (a, b, d) = (m == m, m == c, c != m);
            vassert!(a != nan && b != nan && d == nan, "{}: with a value that {} itself, == itself is {a}, == its clone {b}, != {d}", $name, if nan { "doesn't equal" } else { "equals" });
            mon.ev("maps with values that don't equal themselves", u64::from(nan));
        }};
    }
    go!("FrozenMap<u32, f64>", FrozenMap::from_vec(ints.clone()));
    go!("FrozenMap<String, f64>", FrozenMap::from_vec(strs.clone()));
    go!("IntegerMap", IntegerMap::<u32, f64, u8>::from_vec(ints.clone()));
    go!("IntegerRangeMap", IntegerRangeMap::<u32, f64>::from_vec(ints.clone()));
    go!("ScanningMap", ScanningMap::from_vec(ints.clone()));
    go!("CommonMap", CommonMap::<u32, f64, u8, Bh>::from_vec_with_hasher(ints, Bh::any(rng)));
    go!("LeftSliceMap", LeftSliceMap::<String, f64, u8, Bh>::from_vec_with_hasher(strs.clone(), 0..3, Bh::any(rng)));
    go!("RightSliceMap", RightSliceMap::<String, f64, u8, Bh>::from_vec_with_hasher(strs.clone(), 0..3, Bh::any(rng)));
    go!("LengthMap", LengthMap::<String, f64>::from_vec(strs));
}

fn main() {
    run_cases(|i, rng, mon| match i % 8 {
        0..=2 => every_map(&Job, rng, mon),
        3 | 4 => every_set(&Job, rng, mon),
        5 | 6 => pairs(i / 8, rng, mon),
        _ => not_reflexive(rng, mon),
    });
}
