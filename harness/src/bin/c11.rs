//! C11: a clone is equal, made of one clone of each key and value, and shares nothing.

use std::collections::HashSet;

use vh::catalog::{tracked_map, tracked_set, MapJob, MkVal, SetJob};
use vh::checks::{describe_case, fresh_entries, with_repeats};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key};
use vh::maps::{MapDyn, MapSpec};
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::sets::{SetDyn, SetSpec};
use vh::tracked;
use vh::vassert;

struct Job;

fn size(rng: &mut Rng) -> usize {
    if rng.chance(5) {
        gen_size(rng, 1100)
    } else {
        rng.below(50)
    }
}

/// Keys for a collection that is cloned over: some of the others, or about as many of their own.
fn over_keys<K: Key>(rng: &mut Rng, keys: &[K], fits: fn(&[K]) -> bool) -> Option<Vec<K>> {
    if rng.chance(2) {
        let part = keys[..rng.below(keys.len() + 1)].to_vec();
        return fits(&part).then_some(part);
    }
    let n = if rng.chance(4) { keys.len() + rng.below(3) } else { keys.len() };
    for _ in 0..8 {
        let k = K::gen(rng, n).0;
        if k.len() == n && fits(&k) {
            return Some(k);
        }
    }
    None
}

/// What a map shows: keys, and the numbers its values were made from.
fn shown<K: Key, V: MkVal>(m: &dyn MapDyn<K, V>) -> Vec<(K, String)> {
    m.d_iter().into_iter().map(|(k, v)| (k.variant(0), format!("{v:?}"))).collect()
}

fn intact<K: Key, V: MkVal>(what: &str, m: &dyn MapDyn<K, V>, want: &[(K, String)], probes: &[K]) {
    let it = m.d_iter();
    vassert!(it.len() == want.len() && m.d_len() == want.len(), "{what}: {} entries, expected {}", it.len(), want.len());
    for ((k, v), (wk, wv)) in it.iter().zip(want) {
        vassert!(*k == wk && format!("{v:?}") == *wv, "{what}: has ({k:?}, {v:?}), expected ({wk:?}, {wv})");
        let g = m.d_get(wk);
        vassert!(g.is_some_and(|g| std::ptr::eq(g, *v) || std::mem::size_of::<V>() == 0), "{what}: get({wk:?}) is {g:?}, expected {wv}");
    }
    let have: HashSet<&K> = want.iter().map(|x| &x.0).collect();
    for p in probes {
        vassert!(m.d_contains(p) == have.contains(p), "{what}: contains_key({p:?}) is {}", m.d_contains(p));
    }
    tracked::verify(what);
}

fn disjoint<T>(what: &str, kind: &str, a: Vec<Option<*const T>>, b: Vec<Option<*const T>>) {
    let s: HashSet<*const T> = a.into_iter().flatten().collect();
    vassert!(b.into_iter().flatten().all(|p| !s.contains(&p)), "{what}: shares {kind} with the collection it was cloned from");
}

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        tracked::reset();
        let n = size(rng);
        let (keys, shape) = K::gen(rng, n);
        let probes = K::probes(rng, &keys, 40);
        let mut fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        rng.shuffle(&mut fitting);
        fitting.truncate(2);
        for spec in fitting {
            let bh = Bh::any(rng);
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, K::NAME, &keys), keys.len() >= 2);
            mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
            mon.ev(spec.name, 1);
            let mut e = fresh_entries::<K, V>(&keys, 5);
            if spec.facade && rng.chance(3) {
                with_repeats(rng, &mut e, 3);
            }
            let mut m = (spec.build)(e, rng, bh.clone());
            let what = spec.name;
            let n = m.d_len();
            let before = shown(&*m);
            let mut other: Option<Box<dyn MapDyn<K, V>>> = None;
            let mut probes = probes.clone();
            if rng.chance(2) {
                if let Some(part) = over_keys(rng, &keys, spec.fits) {
                    // over another map, which must be dropped
                    let obh = if rng.chance(2) { Bh::any(rng) } else { bh };
                    other = Some((spec.build)(fresh_entries::<K, V>(&part, 900), rng, obh));
                    mon.ev("cloned over a map of the same length", u64::from(part.len() == keys.len()));
                    probes.extend(part.into_iter().take(100));
                }
            }
            let (k0, v0) = tracked::clones();
            let over = other.as_mut().is_some_and(|o| o.d_clone_from(&*m));
            mon.ev("cloned over another map", u64::from(over));
            let mut c = match other {
                Some(o) if over => o,
                _ => m.d_clone(),
            };
            let (k1, v1) = tracked::clones();
            if K::registered() {
                vassert!(k1 - k0 == n as u64, "{what}: cloning {n} entries clones {} keys", k1 - k0);
            }
            if V::registered() {
                vassert!(v1 - v0 == n as u64, "{what}: cloning {n} entries clones {} values", v1 - v0);
            }
            intact(&format!("clone of {what}"), &*c, &before, &probes);
            vassert!(m.d_eq(&*c) == Some((true, false)) && c.d_eq(&*m) == Some((true, false)), "{what}: a clone isn't equal to the original");
            let places = |m: &dyn MapDyn<K, V>| -> Vec<Option<*const V>> { m.d_iter().iter().map(|x| Some(x.1 as *const V)).collect() };
            disjoint(what, "storage", places(&*m), places(&*c));
            disjoint(what, "the buffers of keys", m.d_iter().iter().map(|x| x.0.heap()).collect(), c.d_iter().iter().map(|x| x.0.heap()).collect());
            disjoint(what, "the buffers of values", m.d_iter().iter().map(|x| x.1.heap()).collect(), c.d_iter().iter().map(|x| x.1.heap()).collect());
            mon.ev("clones compared", 1);
            // write to either
            let after = |m: &mut dyn MapDyn<K, V>, rng: &mut Rng, salt: u64| {
                for (i, (k, _)) in before.iter().enumerate() {
                    if rng.chance(2) {
                        if let Some(v) = m.d_get_mut(k) {
                            *v = V::mk(salt + i as u64);
                        }
                    }
                }
                shown(m)
            };
            let cw = after(&mut *c, rng, 70_000);
            intact(&format!("{what} whose clone was written to"), &*m, &before, &probes);
            intact(&format!("clone of {what} after it was written to"), &*c, &cw, &probes);
            let mw = after(&mut *m, rng, 80_000);
            intact(&format!("clone of {what} that was written to"), &*c, &cw, &probes);
            let cc = c.d_clone();
            mon.ev("writes that stayed on one side", 2 * n as u64);
            // drop either
            if rng.chance(2) {
                drop(m);
                intact(&format!("clone of {what} after the original was dropped"), &*c, &cw, &probes);
                drop(c);
            } else {
                drop(c);
                intact(&format!("{what} after its clone was dropped"), &*m, &mw, &probes);
                drop(m);
            }
            intact(&format!("clone of a clone of {what} after both were dropped"), &*cc, &cw, &probes);
            mon.ev("survivors compared", 2);
        }
    }
}

impl SetJob for Job {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        tracked::reset();
        let n = size(rng);
        let (keys, shape) = T::gen(rng, n);
        let probes = T::probes(rng, &keys, 40);
        let mut fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        rng.shuffle(&mut fitting);
        fitting.truncate(2);
        for spec in fitting {
            let bh = Bh::any(rng);
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, T::NAME, &keys), keys.len() >= 2);
            mon.ev(spec.name, 1);
            let e: Vec<T> = fresh_entries::<T, ()>(&keys, 0).into_iter().map(|x| x.0).collect();
            let s = (spec.build)(e, rng, bh.clone());
            let what = spec.name;
            let n = keys.len();
            let before: Vec<T> = s.d_iter().into_iter().map(|k| k.variant(0)).collect();
            let mut other: Option<Box<dyn SetDyn<T>>> = None;
            let over = if rng.chance(2) { over_keys(rng, &keys, spec.fits) } else { None };
            if let Some(part) = &over {
                let e = fresh_entries::<T, ()>(part, 0).into_iter().map(|x| x.0).collect();
                let obh = if rng.chance(2) { Bh::any(rng) } else { bh };
                other = Some((spec.build)(e, rng, obh));
            }
            let over = over.unwrap_or_default();
            let intact = |what: &str, s: &dyn SetDyn<T>| {
                let it = s.d_iter();
                vassert!(it.len() == n && it.iter().zip(&before).all(|(a, b)| **a == *b), "{what}: shows {it:?}, expected {before:?}");
                let have: HashSet<&T> = before.iter().collect();
                for p in probes.iter().chain(&before).chain(over.iter().take(100)) {
                    vassert!(s.d_contains(p) == have.contains(p), "{what}: contains({p:?}) is {}", s.d_contains(p));
                }
                tracked::verify(what);
            };
            let (k0, _) = tracked::clones();
            let done = other.as_mut().is_some_and(|o| o.d_clone_from(&*s));
            let c = match other {
                Some(o) if done => o,
                _ => s.d_clone(),
            };
            let (k1, _) = tracked::clones();
            if T::registered() {
                vassert!(k1 - k0 == n as u64, "{what}: cloning {n} items clones {}", k1 - k0);
            }
            intact(&format!("clone of {what}"), &*c);
            vassert!(s.d_eq(&*c) == Some((true, false)) && c.d_eq(&*s) == Some((true, false)), "{what}: a clone isn't equal to the original");
            if std::mem::size_of::<T>() > 0 {
                disjoint(what, "storage", s.d_iter().iter().map(|x| Some(*x as *const T)).collect(), c.d_iter().iter().map(|x| Some(*x as *const T)).collect());
            }
            disjoint(what, "buffers", s.d_iter().iter().map(|x| x.heap()).collect(), c.d_iter().iter().map(|x| x.heap()).collect());
            mon.ev("clones compared", 1);
            let cc = c.d_clone();
            match rng.below(3) {
                0 => {
                    drop(s);
                    intact(&format!("clone of {what} after the original was dropped"), &*c);
                }
                1 => {
                    drop(c);
                    intact(&format!("{what} after its clone was dropped"), &*s);
                }
                _ => {
                    let limit = rng.below(n + 2);
                    drop(c.d_consume(limit));
                    intact(&format!("{what} after its clone was consumed"), &*s);
                }
            }
            intact(&format!("clone of a clone of {what}"), &*cc);
            mon.ev("survivors compared", 2);
        }
    }
}

fn main() {
    run_cases(|_, rng, mon| if rng.chance(3) { tracked_set(&Job, rng, mon) } else { tracked_map(&Job, rng, mon) });
}
