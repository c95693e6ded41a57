//! C14: misbehaving user code stays contained. Shared by the native, ASan and Miri engines.

use std::collections::{HashMap, HashSet};

use vh::catalog::{MapJob, MkVal, SetJob};
use vh::checks::{describe_case, fresh_entries, with_repeats};
use vh::hashers::{Bh, Mode};
use vh::keys::{gen_size, Key};
use vh::maps::{bounded, MapDyn, MapSpec, MANY};
use vh::rng::Rng;
use vh::run::{caught, take_last_panic, Mon};
use vh::sets::{SetDyn, SetSpec};
use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::{CommonSet, ScanningSet, Set};
use frozen_collections_core::traits::len::Len;

use vh::algebra::{element_pairs, TestSet};
use vh::tracked::{self, TKey, alive_since, arm, disarm, heap, lies, set_chaos, verify, Call, Chaos};
use vh::{vassert, vfail};

pub struct FaultJob {
    /// small cases, for slow engines
    pub small: bool,
}

/// A hasher for which building may compare keys often.
fn rough(rng: &mut Rng) -> Bh {
    match rng.below(4) {
        0 => Bh::new(Mode::Const(1), 0),
        1 => Bh::new(Mode::Mask(3), rng.next()),
        _ => Bh::any(rng),
    }
}

/// What is injected except into destructors.
const QUIET: [Call; 11] =
    [Call::Hash, Call::Eq, Call::Len, Call::Slice, Call::Build, Call::Finish, Call::Clone, Call::Debug, Call::ValEq, Call::HasherClone, Call::Produce];

/// The points at which to fail one of `n` calls: all of them, if there are few.
fn points(rng: &mut Rng, n: u64, limit: usize) -> Vec<u64> {
    if n as usize <= limit {
        (1..=n).collect()
    } else {
        let mut p: Vec<u64> = (1..=6).chain(n - 3..=n).collect();
        while p.len() < limit {
            p.push(1 + rng.next() % n);
        }
        p.sort_unstable();
        p.dedup();
        p
    }
}

type Shown<K> = Vec<(K, String)>;

fn intact<K: Key, V: MkVal>(what: &str, m: &dyn MapDyn<K, V>, want: &Shown<K>, probes: &[K]) {
    verify(what);
    let it = m.d_iter();
    vassert!(it.len() == want.len() && m.d_len() == want.len(), "{what}: {} entries, expected {}", it.len(), want.len());
    for ((k, v), (wk, wv)) in it.iter().zip(want) {
        vassert!(*k == wk && format!("{v:?}") == *wv, "{what}: has ({k:?}, {v:?}), expected ({wk:?}, {wv})");
        let g = m.d_get(wk);
        vassert!(g.is_some_and(|g| format!("{g:?}") == *wv), "{what}: get({wk:?}) is {g:?}, expected {wv}");
    }
    let have: HashSet<&K> = want.iter().map(|x| &x.0).collect();
    for p in probes {
        vassert!(m.d_contains(p) == have.contains(p), "{what}: contains_key({p:?}) is {}", m.d_contains(p));
    }
}

fn shown<K: Key, V: MkVal>(m: &dyn MapDyn<K, V>) -> Shown<K> {
    m.d_iter().into_iter().map(|(k, v)| (k.variant(0), format!("{v:?}"))).collect()
}

impl MapJob for FaultJob {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        tracked::reset();
        take_last_panic();
        let n = if self.small {
            rng.below(7)
        } else if rng.chance(12) {
            gen_size(rng, 300)
        } else {
            rng.below(14)
        };
        let limit = if self.small { 6 } else { 60 };
        let (keys, shape) = K::gen(rng, n);
        let probes = K::probes(rng, &keys, 12);
        let fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        if fitting.is_empty() {
            return;
        }
        let spec = *rng.pick(&fitting);
        let what = spec.name;
        let bh = rough(rng);
        mon.describe(|| describe_case(what, &keys, shape, &bh));
        mon.case(&(what, K::NAME, &keys, bh.seed), keys.len() >= 2);
        mon.sample(3, || describe_case(what, &keys, shape, &bh));
        mon.ev(what, 1);
        let repeats = spec.facade && rng.chance(2);
        let maker = rng.fork();
        let mk = |fault: u64| {
            let mut r = maker.clone();
            let mut e = fresh_entries::<K, V>(&keys, 5);
            if repeats {
                with_repeats(&mut r, &mut e, 3);
            }
            let b = bh.clone();
            arm(&QUIET, fault);
            let m = caught(|| (spec.build)(e, &mut r, b));
            let (calls, fired) = disarm();
            (m, calls, fired)
        };
        // construction, failing at every call
        let (m, calls, _) = mk(0);
        let Ok(mut m) = m else { vfail!("{what}: construction panics without cause") };
        let from = tracked::next_id();
        let heap0 = heap();
        let mut fired_n = 0;
        for k in points(rng, calls, limit) {
            let (r, _, fired) = mk(k);
            match r {
                Err(_) if fired => fired_n += 1,
                Err(e) => vfail!("{what}: construction panics without cause: {e}"),
                // with its own hash seed, a build need not make the same calls
                Ok(m2) => {
                    vassert!(!fired, "{what}: construction survives a panic of the user's code");
                    drop(m2);
                }
            }
            verify(&format!("{what}, construction failing at call {k} of {calls}"));
            let left = alive_since(from);
            vassert!(left == 0, "{what}: construction failing at call {k} of {calls} leaks {left} keys and values");
        }
        drop(take_last_panic());
        let now = heap();
        vassert!(now == heap0, "{what}: failed constructions leak {} bytes in {} blocks", now.0 - heap0.0, now.1 - heap0.1);
        mon.ev("constructions failed", fired_n);
        // reads and writes
        let want = shown(&*m);
        let twin = (spec.build)(fresh_entries::<K, V>(&keys, 5), rng, bh.clone());
        let mut fired_n = 0;
        let mut ops_seen = 0;
        for _ in 0..if self.small { 4 } else { 12 } {
            let p: K = if keys.is_empty() || rng.chance(3) && !probes.is_empty() { probes.first().cloned().unwrap_or_else(|| keys[0].clone()) } else { rng.pick(&keys).variant(7) };
            let size = *rng.pick(&MANY);
            let many: Vec<&K> = if keys.is_empty() { Vec::new() } else { (0..size).map(|_| rng.pick(&keys)).collect() };
            let op = rng.below(11);
            let name = ["get", "get_mut", "get_key_value", "contains_key", "index", "index_mut", "get_many_mut", "clone", "eq", "Debug", "clone_from"][op];
            let mut act = |fault: u64| {
                let p2 = p.clone();
                let mut target = if op == 10 { Some(twin.d_clone()) } else { None };
                arm(&QUIET, fault);
                let r = caught(|| match op {
                    0 => drop(m.d_get(&p).is_some()),
                    1 => drop(m.d_get_mut(&p).is_some()),
                    2 => drop(m.d_get_kv(&p).is_some()),
                    3 => drop(m.d_contains(&p)),
                    4 => drop(m.d_index(p2).instance()),
                    5 => drop(m.d_index_mut(p2).instance()),
                    6 => drop(m.d_many(&many).is_some()),
                    7 => drop(m.d_clone()),
                    8 => drop(m.d_eq(&*twin)),
                    9 => drop(m.d_debug()),
                    _ => drop(target.as_mut().unwrap().d_clone_from(&*m)),
                });
                let (calls, fired) = disarm();
                if let Some(t) = target {
                    if fired {
                        // half-assigned at worst, but safe to use and to drop
                        let it = t.d_iter();
                        for (k, _) in it {
                            let _ = t.d_get(k);
                        }
                    }
                }
                vassert!(fired == (fired && r.is_err()), "{what}: {name} survives a panic of the user's code");
                (calls, fired)
            };
            let from = tracked::next_id();
            let (calls, _) = act(0);
            for k in points(rng, calls, limit) {
                let (_, fired) = act(k);
                fired_n += u64::from(fired);
                let left = alive_since(from);
                vassert!(left == 0, "{what}: {name} failing at call {k} of {calls} leaks {left} keys and values");
            }
            drop(take_last_panic());
            ops_seen += 1;
            intact(&format!("{what} after failing {name}"), &*m, &want, &probes);
        }
        drop(twin);
        mon.ev("reads and writes failed", fired_n);
        mon.ev("collections intact after failures", ops_seen);
        // dropping, failing at every destructor; the rest is still dropped
        let from = 0;
        let mut fired_n = 0;
        let most = (2 * m.d_len() as u64).min(if self.small { 6 } else { 24 });
        for k in 1..=most {
            let c = m.d_clone();
            arm(&[Call::Drop], k);
            let r = caught(|| drop(c));
            let (_, fired) = disarm();
            vassert!(fired == r.is_err(), "{what}: dropping swallows a panic");
            fired_n += u64::from(fired);
            verify(&format!("{what}, dropped with destructor {k} failing"));
        }
        // destructors failing during construction
        if repeats {
            for k in 1..=6 {
                let mut r = maker.clone();
                let mut e = fresh_entries::<K, V>(&keys, 5);
                with_repeats(&mut r, &mut e, 3);
                arm(&[Call::Drop], k);
                let b = bh.clone();
                let res = caught(|| (spec.build)(e, &mut r, b));
                disarm();
                drop(res);
                verify(&format!("{what}, built with destructor {k} failing"));
            }
        }
        drop(m);
        let _ = from;
        verify(what);
        mon.ev("drops failed", fired_n);
    }
}

impl SetJob for FaultJob {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        tracked::reset();
        take_last_panic();
        let n = if self.small {
            rng.below(7)
        } else if rng.chance(12) {
            gen_size(rng, 300)
        } else {
            rng.below(14)
        };
        let limit = if self.small { 6 } else { 60 };
        let (keys, shape) = T::gen(rng, n);
        let probes = T::probes(rng, &keys, 12);
        let fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        if fitting.is_empty() {
            return;
        }
        let spec = *rng.pick(&fitting);
        let what = spec.name;
        let bh = rough(rng);
        mon.describe(|| describe_case(what, &keys, shape, &bh));
        mon.case(&(what, T::NAME, &keys, bh.seed), keys.len() >= 2);
        mon.ev(what, 1);
        let repeats = spec.facade && rng.chance(2);
        let maker = rng.fork();
        let mk = |fault: u64| {
            let mut r = maker.clone();
            let mut e = fresh_entries::<T, ()>(&keys, 5);
            if repeats {
                with_repeats(&mut r, &mut e, 3);
            }
            let e: Vec<T> = e.into_iter().map(|x| x.0).collect();
            let b = bh.clone();
            arm(&QUIET, fault);
            let m = caught(|| (spec.build)(e, &mut r, b));
            let (calls, fired) = disarm();
            (m, calls, fired)
        };
        let (s, calls, _) = mk(0);
        let Ok(s) = s else { vfail!("{what}: construction panics without cause") };
        let from = tracked::next_id();
        let heap0 = heap();
        let mut fired_n = 0;
        for k in points(rng, calls, limit) {
            let (r, _, fired) = mk(k);
            match r {
                Err(_) if fired => fired_n += 1,
                Err(e) => vfail!("{what}: construction panics without cause: {e}"),
                Ok(m2) => {
                    vassert!(!fired, "{what}: construction survives a panic of the user's code");
                    drop(m2);
                }
            }
            verify(&format!("{what}, construction failing at call {k} of {calls}"));
            let left = alive_since(from);
            vassert!(left == 0, "{what}: construction failing at call {k} of {calls} leaks {left} values");
        }
        drop(take_last_panic());
        let now = heap();
        vassert!(now == heap0, "{what}: failed constructions leak {} bytes in {} blocks", now.0 - heap0.0, now.1 - heap0.1);
        mon.ev("constructions failed", fired_n);
        let order: Vec<T> = s.d_iter().into_iter().map(|x| x.variant(0)).collect();
        let half: Vec<T> = keys.iter().map(|k| k.variant(1)).collect();
        let other = (spec.build)(half, rng, bh.clone());
        let mut fired_n = 0;
        let mut ops_seen = 0;
        for _ in 0..if self.small { 4 } else { 10 } {
            let p: T = if keys.is_empty() || rng.chance(3) && !probes.is_empty() { match probes.first() { Some(p) => p.clone(), None => continue } } else { rng.pick(&keys).variant(7) };
            let op = rng.below(6);
            let name = ["get", "contains", "clone", "eq", "Debug", "clone_from"][op];
            let act = |fault: u64| {
                let mut target = if op == 5 { Some(other.d_clone()) } else { None };
                arm(&QUIET, fault);
                let r = caught(|| match op {
                    0 => drop(s.d_get(&p).is_some()),
                    1 => drop(s.d_contains(&p)),
                    2 => drop(s.d_clone()),
                    3 => drop(s.d_eq(&*other)),
                    4 => drop(s.d_debug()),
                    _ => drop(target.as_mut().unwrap().d_clone_from(&*s)),
                });
                let (calls, fired) = disarm();
                if let Some(t) = target {
                    for k in t.d_iter() {
                        let _ = t.d_contains(k);
                    }
                }
                vassert!(!fired || r.is_err(), "{what}: {name} survives a panic of the user's code");
                (calls, fired)
            };
            let from = tracked::next_id();
            let (calls, _) = act(0);
            for k in points(rng, calls, limit) {
                let (_, fired) = act(k);
                fired_n += u64::from(fired);
                let left = alive_since(from);
                vassert!(left == 0, "{what}: {name} failing at call {k} of {calls} leaks {left} values");
            }
            ops_seen += 1;
            verify(&format!("{what}, {name} failing"));
            let it = s.d_iter();
            vassert!(it.len() == order.len() && it.iter().zip(&order).all(|(a, b)| **a == *b), "{what}: after failing {name}, shows {it:?}, expected {order:?}");
            let have: HashSet<&T> = order.iter().collect();
            for p in probes.iter().chain(&order) {
                vassert!(s.d_contains(p) == have.contains(p), "{what}: after failing {name}, contains({p:?}) is {}", s.d_contains(p));
            }
        }
        drop(other);
        mon.ev("reads and writes failed", fired_n);
        mon.ev("collections intact after failures", ops_seen);
        // dropping and consuming, with failing destructors and clones
        let mut fired_n = 0;
        let most = (s.d_len() as u64 + 1).min(if self.small { 4 } else { 16 });
        for k in 1..=most {
            let c = s.d_clone();
            let (skip, take) = (rng.below(n + 2), rng.below(n + 2));
            let kinds: &[Call] = if rng.chance(2) { &[Call::Drop] } else { &[Call::Drop, Call::Clone] };
            let way = rng.below(4);
            // (11 panics by itself)
            let by = Some(rng.below(vh::sets::WAYS)).filter(|w| *w != 11).unwrap_or(4);
            arm(kinds, k);
            let r = caught(|| match way {
                0 => drop(c),
                1 => drop(c.d_consume(take)),
                2 => drop(c.d_consume_by(skip, by)),
                _ => drop(c.d_consume_cloned(skip, take)),
            });
            let (_, fired) = disarm();
            vassert!(fired == r.is_err(), "{what}: dropping swallows a panic");
            fired_n += u64::from(fired);
            verify(&format!("{what}, dropped with call {k} failing"));
        }
        drop(s);
        verify(what);
        mon.ev("drops failed", fired_n);
    }
}

/// Inconsistent implementations.
pub struct LieJob {
    pub small: bool,
}

impl LieJob {
    fn size(&self, rng: &mut Rng) -> usize {
        if self.small {
            rng.below(9)
        } else if rng.chance(8) {
            gen_size(rng, 700)
        } else {
            rng.below(30)
        }
    }
}

impl MapJob for LieJob {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        tracked::reset();
        take_last_panic();
        let n = self.size(rng);
        let (keys, shape) = K::gen(rng, n);
        let probes = K::probes(rng, &keys, 12);
        let spec = *rng.pick(specs);
        let what = spec.name;
        let bh = Bh::any(rng);
        let (c1, c2) = (Chaos::any(rng), Chaos::any(rng));
        mon.describe(|| format!("{c1:?} then {c2:?}; {}", describe_case(what, &keys, shape, &bh)));
        mon.case(&(what, K::NAME, &keys, format!("{c1:?} {c2:?}")), keys.len() >= 2);
        mon.sample(3, || format!("{c1:?} then {c2:?}; {}", describe_case(what, &keys, shape, &bh)));
        if what == "ScanningMap" && keys.len() > 300 {
            return;
        }
        let fits = (spec.fits)(&keys);
        let mut e = fresh_entries::<K, V>(&keys, 5);
        if spec.facade && rng.chance(2) {
            with_repeats(rng, &mut e, 3);
        }
        let supplied: HashMap<u64, u64> = e.iter().map(|x| (x.1.instance(), x.0.instance())).collect();
        let total = e.len();
        let seed = rng.next();
        let from = if K::registered() || V::registered() { e.iter().map(|x| if K::registered() { x.0.instance() } else { x.1.instance() }).min().unwrap_or(u64::MAX) } else { 0 };
        let spare = if rng.chance(2) { Some(fresh_entries::<K, V>(&keys, 9)) } else { None };
        let n_spare = spare.as_ref().map_or(0, Vec::len);
        let _ = n_spare;
        set_chaos(c1, seed);
        let built = caught(|| (spec.build)(e, rng, bh.clone()));
        let told = lies();
        set_chaos(Chaos::NONE, 0);
        drop(take_last_panic());
        verify(&format!("{what} built from lying keys"));
        let mut panics = 0;
        match built {
            Err(_) => {
                panics += 1;
                mon.ev("constructions refused", 1);
            }
            Ok(mut m) => {
                vassert!(fits || spec.facade || told > 0, "{what}: built from keys it can't take");
                vassert!(m.d_len() <= total, "{what}: {} entries made of {total}", m.d_len());
                // what it holds was supplied, key with value, and exists
                let check = |what: &str, m: &dyn MapDyn<K, V>, any_value: bool| {
                    verify(what);
                    let it = bounded(m.d_iter(), m.d_len());
                    vassert!(it.len() == m.d_len(), "{what}: iterates over {} of {} entries", it.len(), m.d_len());
                    let mut seen = HashSet::new();
                    for (k, v) in it {
                        if V::registered() && K::registered() && !any_value {
                            vassert!(supplied.get(&v.instance()) == Some(&k.instance()), "{what}: holds an entry that wasn't supplied");
                        }
                        vassert!(!V::registered() || tracked::is_alive(v.instance()), "{what}: holds a value that was dropped");
                        vassert!(!K::registered() || tracked::is_alive(k.instance()), "{what}: holds a key that was dropped");
                        vassert!(!V::registered() || seen.insert(v.instance()), "{what}: holds a value twice");
                    }
                };
                check(&format!("{what} built from lying keys"), &*m, false);
                for round in 0..if self.small { 3 } else { 8 } {
                    set_chaos(if round % 2 == 0 { c2 } else { Chaos::any(rng) }, seed + round);
                    let p: Vec<K> = (0..4).filter_map(|i| if i % 2 == 0 || probes.is_empty() { keys.get(rng.below(keys.len().max(1))).map(|k| k.variant(7)) } else { Some(rng.pick(&probes).variant(7)) }).collect();
                    for k in &p {
                        let k2 = k.variant(3);
                        let base = if V::registered() { Some(m.d_iter().iter().map(|x| x.1.instance()).collect::<HashSet<u64>>()) } else { None };
                        let inside = |v: &V| base.as_ref().is_none_or(|b| b.contains(&v.instance()));
                        let r = caught(|| {
                            vassert!(m.d_get(k).is_none_or(inside), "{what}: get returns a value the map doesn't hold");
                            vassert!(m.d_get_kv(k).is_none_or(|x| inside(x.1)), "{what}: get_key_value returns a value the map doesn't hold");
                            let _ = m.d_contains(k);
                            vassert!(m.d_get_mut(k).is_none_or(|v| inside(v)), "{what}: get_mut returns a value the map doesn't hold");
                            vassert!(inside(m.d_index(k2)), "{what}: indexing returns a value the map doesn't hold");
                        });
                        panics += u64::from(r.is_err());
                        drop(take_last_panic());
                    }
                    // get_many_mut must never hand out one value twice
                    for _ in 0..3 {
                        let size = *rng.pick(&MANY);
                        if p.is_empty() {
                            break;
                        }
                        let q: Vec<&K> = (0..size).map(|_| if rng.chance(2) || keys.is_empty() { rng.pick(&p) } else { rng.pick(&keys) }).collect();
                        let r = caught(|| {
                            if let Some(Some(mut vs)) = m.d_many(&q) {
                                let places: HashSet<*const V> = vs.iter().map(|v| &**v as *const V).collect();
                                vassert!(places.len() == vs.len() || std::mem::size_of::<V>() == 0, "{what}: get_many_mut returns two references to one value");
                                for v in &mut vs {
                                    **v = V::mk(77);
                                }
                                mon.ev("references obtained from liars", vs.len() as u64);
                            }
                        });
                        panics += u64::from(r.is_err());
                        drop(take_last_panic());
                    }
                    let r = caught(|| {
                        let c = m.d_clone();
                        let _ = (c.d_eq(&*m), m.d_eq(&*c), m.d_eq(&*m));
                        check(&format!("clone of {what}"), &*c, true);
                        let _ = m.d_debug();
                        drop(c);
                    });
                    panics += u64::from(r.is_err());
                    drop(take_last_panic());
                    let told = lies();
                    set_chaos(Chaos::NONE, 0);
                    mon.ev("false answers given", told);
                    check(&format!("{what} read with lying keys"), &*m, true);
                    mon.ev("rounds of reads survived", 1);
                }
                drop(m);
            }
        }
        mon.ev(what, 1);
        mon.ev("false answers given", told);
        mon.ev("calls that panicked", panics);
        drop(spare);
        verify(what);
        let left = alive_since(from);
        let keep = if K::registered() { 0 } else { 0 };
        vassert!(from == u64::MAX || left == keep, "{what}: {left} keys and values of lying types were never dropped");
    }
}

impl SetJob for LieJob {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        tracked::reset();
        take_last_panic();
        let n = self.size(rng);
        let (keys, shape) = T::gen(rng, n);
        let probes = T::probes(rng, &keys, 12);
        let spec = *rng.pick(specs);
        let what = spec.name;
        let bh = Bh::any(rng);
        let (c1, c2) = (Chaos::any(rng), Chaos::any(rng));
        mon.describe(|| format!("{c1:?} then {c2:?}; {}", describe_case(what, &keys, shape, &bh)));
        mon.case(&(what, T::NAME, &keys, format!("{c1:?} {c2:?}")), keys.len() >= 2);
        if what == "ScanningSet" && keys.len() > 300 {
            return;
        }
        let e: Vec<T> = keys.iter().map(|k| k.variant(1)).collect();
        let total = e.len();
        let seed = rng.next();
        set_chaos(c1, seed);
        let built = caught(|| (spec.build)(e, rng, bh.clone()));
        let mut told = lies();
        set_chaos(Chaos::NONE, 0);
        drop(take_last_panic());
        verify(&format!("{what} built from lying values"));
        let mut panics = 0;
        match built {
            Err(_) => {
                panics += 1;
                mon.ev("constructions refused", 1);
            }
            Ok(s) => {
                vassert!(s.d_len() <= total, "{what}: {} items made of {total}", s.d_len());
                let check = |what: &str, s: &dyn SetDyn<T>| {
                    verify(what);
                    let it = bounded(s.d_iter(), s.d_len());
                    vassert!(it.len() == s.d_len(), "{what}: iterates over {} of {} items", it.len(), s.d_len());
                    let mut seen = HashSet::new();
                    for k in it {
                        vassert!(!T::registered() || tracked::is_alive(k.instance()), "{what}: holds a value that was dropped");
                        vassert!(!T::registered() || seen.insert(k.instance()), "{what}: holds a value twice");
                    }
                };
                check(&format!("{what} built from lying values"), &*s);
                let mut s = s;
                for round in 0..if self.small { 3 } else { 8 } {
                    set_chaos(if round % 2 == 0 { c2 } else { Chaos::any(rng) }, seed + round);
                    for k in keys.iter().take(3).chain(probes.iter().take(3)) {
                        let r = caught(|| {
                            let _ = (s.d_contains(k), s.d_get(k).is_some(), s.d_contains_trait(k));
                        });
                        panics += u64::from(r.is_err());
                        drop(take_last_panic());
                    }
                    let (skip, take) = (rng.below(n + 2), rng.below(n + 2));
                    let r = caught(|| {
                        let c = s.d_clone();
                        let _ = (c.d_eq(&*s), s.d_eq(&*c));
                        check(&format!("clone of {what}"), &*c);
                        let _ = s.d_debug();
                        drop(c.d_consume_cloned(skip, take));
                        s = s.d_clone();
                    });
                    panics += u64::from(r.is_err());
                    drop(take_last_panic());
                    told += lies();
                    set_chaos(Chaos::NONE, 0);
                    check(&format!("{what} read with lying values"), &*s);
                    mon.ev("rounds of reads survived", 1);
                }
                drop(s);
            }
        }
        mon.ev(what, 1);
        mon.ev("false answers given", told);
        mon.ev("calls that panicked", panics);
        verify(what);
    }
}

// ---------------------------------------------------------------------------------------------
// set operations

/// A set that lies about its length and members.
struct LyingSet(Vec<TKey>);
impl Len for LyingSet {
    fn len(&self) -> usize {
        tracked::lie_size(self.0.len())
    }
}
impl Set<TKey> for LyingSet {
    type Iterator<'a> = std::slice::Iter<'a, TKey>;
    fn iter(&self) -> Self::Iterator<'_> {
        self.0.iter()
    }
    fn contains(&self, value: &TKey) -> bool {
        tracked::lie_bool(self.0.iter().any(|x| x.text() == value.text()))
    }
}
impl TestSet<TKey> for LyingSet {}

struct Pair<'r> {
    rng: &'r mut Rng,
    limit: usize,
    failed: u64,
    ran: u64,
    lying: bool,
}

impl Pair<'_> {
    fn run<A: TestSet<TKey>, B: TestSet<TKey>>(&mut self, na: &str, a: &A, nb: &str, b: &B) {
        let most = 2 * (bounded(a.iter(), 5000).len() + bounded(b.iter(), 5000).len()) + 3;
        // a clone-free walk over at most `most` items
        let names = ["union", "intersection", "difference", "symmetric_difference", "is_subset", "is_superset", "is_disjoint", "|&-^", "=="];
        for (op, name) in names.iter().enumerate() {
            let act = |fault: u64| {
                arm(&QUIET, fault);
                let r = caught(|| {
                    let count = match op {
                        0 => a.union(b).take(most).map(|x| x.text().len()).count(),
                        1 => a.intersection(b).take(most).map(|x| x.text().len()).count(),
                        2 => a.difference(b).take(most).map(|x| x.text().len()).count(),
                        3 => a.symmetric_difference(b).take(most).map(|x| x.text().len()).count(),
                        4 => usize::from(a.is_subset(b)),
                        5 => usize::from(a.is_superset(b)),
                        6 => usize::from(a.is_disjoint(b)),
                        7 => a.ops(b).map_or(0, |v| v.iter().map(Vec::len).sum()),
                        _ => usize::from(a.eq_any(b).is_some()),
                    };
                    // hints may be wrong, asking must be safe
                    let _ = (a.union(b).size_hint(), a.intersection(b).size_hint(), a.difference(b).size_hint(), a.symmetric_difference(b).size_hint());
                    vassert!(count <= 8 * most, "{name} of {na} and {nb} yields {count} items of {most}");
                });
                let (calls, fired) = disarm();
                drop(take_last_panic());
                vassert!(!fired || r.is_err(), "{name} of {na} and {nb} survives a panic of the user's code");
                vassert!(fired || r.is_ok() || self.lying, "{name} of {na} and {nb} panics: {:?}", r.err());
                (calls, fired)
            };
            let from = tracked::next_id();
            let (calls, _) = act(0);
            if !self.lying {
                for k in points(self.rng, calls, self.limit) {
                    let (_, fired) = act(k);
                    self.failed += u64::from(fired);
                }
            }
            verify(&format!("{name} of {na} and {nb}"));
            let left = alive_since(from);
            vassert!(left == 0, "{name} of {na} and {nb} failing leaks {left} values");
            self.ran += 1;
        }
    }
}

/// Set operations whose user code panics or lies.
pub fn algebra(small: bool, rng: &mut Rng, mon: &mut Mon) {
    tracked::reset();
    take_last_panic();
    let (a, b, how) = element_pairs::<TKey>(rng, if small { 5 } else { 14 });
    mon.describe(|| format!("{how}: {a:?} and {b:?}"));
    mon.case(&(how, &a, &b), !a.is_empty());
    let bh = rough(rng);
    let lying = rng.chance(2);
    let chaos = if lying { Chaos::any(rng) } else { Chaos::NONE };
    let seed = rng.next();
    let fresh = |v: &[TKey]| -> Vec<TKey> { v.iter().map(|k| k.variant(0)).collect() };
    let order = |v: Vec<&TKey>| -> Vec<u64> { v.iter().map(|k| k.instance()).collect() };
    let fa = FrozenSet::from_vec_with_hasher(fresh(&a), bh.clone());
    let ca = CommonSet::<TKey, u16, Bh>::from_vec_with_hasher(fresh(&a), bh.clone());
    let sb = ScanningSet::from_vec(fresh(&b));
    let fb = FrozenSet::from_vec_with_hasher(fresh(&b), bh.clone());
    let cb = CommonSet::<TKey, u16, Bh>::from_vec_with_hasher(fresh(&b), bh.clone());
    let mut hb = HashSet::with_hasher(bh.clone());
    hb.extend(fresh(&b));
    let lb = LyingSet(fresh(&b));
    let before = (order(fa.iter().collect()), order(ca.iter().collect()), order(sb.iter().collect()), order(fb.iter().collect()), order(cb.iter().collect()));
    if lying {
        set_chaos(chaos, seed);
    }
    let mut p = Pair { rng, limit: if small { 4 } else { 24 }, failed: 0, ran: 0, lying };
    p.run("FrozenSet", &fa, "ScanningSet", &sb);
    p.run("FrozenSet", &fa, "FrozenSet", &fb);
    p.run("CommonSet", &ca, "CommonSet", &cb);
    if !small {
        p.run("ScanningSet", &sb, "FrozenSet", &fa);
        p.run("CommonSet", &ca, "HashSet", &hb);
        p.run("ScanningSet", &sb, "CommonSet", &cb);
        p.run("HashSet", &hb, "FrozenSet", &fb);
    }
    if lying {
        p.run("FrozenSet", &fa, "a lying set", &lb);
        p.run("a lying set", &lb, "CommonSet", &cb);
    }
    let (failed, ran) = (p.failed, p.ran);
    mon.ev("false answers given", lies());
    set_chaos(Chaos::NONE, 0);
    let after = (order(fa.iter().collect()), order(ca.iter().collect()), order(sb.iter().collect()), order(fb.iter().collect()), order(cb.iter().collect()));
    vassert!(before == after, "set operations with misbehaving values change a set");
    for k in &a {
        vassert!(Set::contains(&fa, k) && Set::contains(&ca, k), "after failing set operations, {k:?} is missing");
    }
    for k in &b {
        vassert!(Set::contains(&fb, k) && Set::contains(&cb, k) && Set::contains(&sb, k), "after failing set operations, {k:?} is missing");
    }
    mon.ev("set operations failed", failed);
    mon.ev("set operations run on misbehaving values", ran);
}
