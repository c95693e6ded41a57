//! C13: everything a program can do with the collections, for engines that notice undefined
//! behaviour. Contents are read in full, so that an invalid reference doesn't go unnoticed.

use std::borrow::Borrow;
use std::collections::HashSet;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Range;

use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::{CommonMap, IntegerMap, LeftSliceMap, LengthMap, RightSliceMap};
use frozen_collections_core::specialized_sets::{CommonSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, Set};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;

use vh::algebra::{element_pairs, int_pair, str_pair, IntSet, PairJob, StrSet, TestSet};
use vh::catalog::{MapJob, MkVal, SetJob};
use vh::checks::{describe_case, fresh_entries, with_repeats};
use vh::hashers::Bh;
use vh::ints::{lie, lies, Liar};
use vh::keys::{gen_strings, probe_strings, Key};
use vh::maps::{bounded, MapDyn, MapSpec, MANY};
use vh::rng::Rng;
use vh::run::{caught, Fnv, Mon};
use vh::sets::{SetDyn, SetSpec};
use vh::vassert;

/// Reads all of a key.
fn read<K: Hash>(k: &K) -> u64 {
    let mut h = Fnv(1);
    k.hash(&mut h);
    h.finish()
}

/// Reads all of a value.
fn read_value<V: MkVal>(v: &V) -> bool {
    v.clone() == *v
}

pub struct Broad {
    pub small: bool,
}

impl Broad {
    fn size(&self, rng: &mut Rng, cheap: bool) -> usize {
        if self.small {
            if cheap && rng.chance(30) {
                rng.range(250, 260)
            } else if rng.chance(25) {
                rng.below(30)
            } else {
                rng.below(8)
            }
        } else if rng.chance(6) {
            vh::keys::gen_size(rng, 1200)
        } else {
            rng.below(40)
        }
    }
}

impl MapJob for Broad {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let cheap = std::mem::size_of::<K>() <= 4;
        let n = self.size(rng, cheap);
        let (keys, shape) = K::gen(rng, n);
        let probes = K::probes(rng, &keys, if self.small { 6 } else { 30 });
        let fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        let Some(spec) = (!fitting.is_empty()).then(|| *rng.pick(&fitting)) else { return };
        let bh = Bh::any(rng);
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, K::NAME, V::NAME, &keys), keys.len() >= 2);
        mon.ev(spec.name, 1);
        let mut e = fresh_entries::<K, V>(&keys, 5);
        if spec.facade && rng.chance(3) {
            with_repeats(rng, &mut e, 3);
        }
        let mut pool: Vec<Box<dyn MapDyn<K, V>>> = vec![(spec.build)(e, rng, bh.clone())];
        let steps = if self.small { 14 } else { 60 };
        let mut done = 0;
        for step in 0..steps {
            let at = rng.below(pool.len());
            let k = if keys.is_empty() || rng.chance(3) { rng.pick(&probes).clone() } else { rng.pick(&keys).variant(step) };
            done += 1;
            match rng.below(13) {
                0 => {
                    let m = &pool[at];
                    vassert!(m.d_get(&k).is_none_or(read_value), "{}: get({k:?}) isn't a value", spec.name);
                    vassert!(m.d_get_kv(&k).is_none_or(|x| read(x.0) == read(&k) && read_value(x.1)), "{}: get_key_value({k:?}) returns another key", spec.name);
                    let _ = m.d_contains(&k);
                }
                1 | 2 => {
                    let v = pool[at].d_get_mut(&k);
                    if let Some(v) = v {
                        *v = V::mk(step);
                    }
                }
                3 => {
                    let m = &mut pool[at];
                    let _ = caught(|| *m.d_index_mut(k.clone()) = V::mk(step));
                    let _ = caught(|| read_value(m.d_index(k)));
                }
                4 | 5 => {
                    let size = *rng.pick(&MANY);
                    let q: Vec<&K> = (0..size).map(|_| if keys.is_empty() || rng.chance(6) { rng.pick(&probes) } else { rng.pick(&keys) }).collect();
                    if let Some(Some(mut v)) = pool[at].d_many(&q) {
                        for i in 0..v.len() {
                            *v[i] = V::mk(step + i as u64);
                        }
                        for i in 1..v.len() {
                            let (a, b) = v.split_at_mut(i);
                            std::mem::swap(a[0], b[0]);
                        }
                        vassert!(v.iter().all(|v| read_value(*v)), "{}: invalid values", spec.name);
                    }
                }
                6 => {
                    let m = &pool[at];
                    let mut s = 0;
                    for (k, v) in m.d_iter() {
                        s ^= read(k);
                        vassert!(read_value(v), "{}: iteration yields an invalid value", spec.name);
                    }
                    for (k, v) in m.d_ref_iter() {
                        s ^= read(k);
                        vassert!(read_value(v), "{}: iteration yields an invalid value", spec.name);
                    }
                    for k in m.d_keys() {
                        s ^= read(k);
                    }
                    vassert!(m.d_values().iter().all(|v| read_value(*v)), "{}: iteration yields an invalid value", spec.name);
                    std::hint::black_box(s);
                }
                7 => {
                    let c = pool[at].d_clone();
                    pool.push(c);
                }
                8 if pool.len() > 1 => {
                    drop(pool.swap_remove(at));
                }
                9 if pool.len() > 1 => {
                    let mut m = pool.swap_remove(at);
                    let from = rng.below(pool.len());
                    m.d_clone_from(&*pool[from]);
                    pool.push(m);
                }
                10 => {
                    let o = rng.below(pool.len());
                    let _ = pool[at].d_eq(&*pool[o]);
                }
                11 if !self.small || rng.chance(4) => {
                    let _ = pool[at].d_debug();
                }
                _ if !keys.is_empty() => {
                    let part = &keys[..rng.below(keys.len().min(12)) + 1];
                    if pool.len() < 4 && (spec.fits)(part) {
                        pool.push((spec.build)(fresh_entries::<K, V>(part, 50), rng, bh.clone()));
                    }
                }
                _ => {}
            }
        }
        for m in &pool {
            for (k, v) in m.d_iter() {
                read(k);
                read_value(v);
            }
        }
        if cfg!(feature = "proto") && keys.len() <= 5 && rng.chance(6) {
            pool[0].d_iter_protocol(rng, mon);
            mon.ev("iterator protocols", 1);
        }
        mon.ev("calls", done);
    }
}

impl SetJob for Broad {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        let cheap = std::mem::size_of::<T>() <= 4;
        let n = self.size(rng, cheap);
        let (keys, shape) = T::gen(rng, n);
        let probes = T::probes(rng, &keys, if self.small { 6 } else { 30 });
        let fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        let Some(spec) = (!fitting.is_empty()).then(|| *rng.pick(&fitting)) else { return };
        let bh = Bh::any(rng);
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, T::NAME, &keys), keys.len() >= 2);
        mon.ev(spec.name, 1);
        let mut e: Vec<T> = keys.iter().map(|k| k.variant(1)).collect();
        if spec.facade && rng.chance(3) {
            let mut x: Vec<(T, ())> = e.into_iter().map(|k| (k, ())).collect();
            with_repeats(rng, &mut x, 3);
            e = x.into_iter().map(|x| x.0).collect();
        }
        let mut pool: Vec<Box<dyn SetDyn<T>>> = vec![(spec.build)(e, rng, bh.clone())];
        let steps = if self.small { 12 } else { 50 };
        for step in 0..steps {
            let at = rng.below(pool.len());
            let k = if keys.is_empty() || rng.chance(3) { rng.pick(&probes).clone() } else { rng.pick(&keys).variant(step) };
            match rng.below(11) {
                0 | 1 => {
                    let s = &pool[at];
                    vassert!(s.d_get(&k).is_none_or(|x| read(x) == read(&k)), "{}: get({k:?}) returns another value", spec.name);
                    let _ = (s.d_contains(&k), s.d_contains_trait(&k));
                }
                2 => {
                    let s = &pool[at];
                    let mut x = 0;
                    for k in s.d_iter().into_iter().chain(s.d_ref_iter()).chain(s.d_trait_iter()) {
                        x ^= read(k);
                    }
                    std::hint::black_box(x);
                }
                3 => {
                    let c = pool[at].d_clone();
                    pool.push(c);
                }
                4 | 5 => {
                    let s = if pool.len() > 1 { pool.swap_remove(at) } else { pool[at].d_clone() };
                    let (skip, take) = (rng.below(n + 2), rng.below(n + 2));
                    if rng.chance(3) {
                        let way = rng.below(vh::sets::WAYS);
                        if let Some(v) = s.d_consume_by(skip, way) {
                            v.iter().for_each(|k| {
                                read(k);
                            });
                        }
                    } else if rng.chance(2) {
                        if let Some(v) = s.d_consume(take) {
                            v.iter().for_each(|k| {
                                read(k);
                            });
                        }
                    } else if let Some((a, b)) = s.d_consume_cloned(skip, take) {
                        a.iter().chain(&b).for_each(|k| {
                            read(k);
                        });
                    }
                }
                6 if pool.len() > 1 => drop(pool.swap_remove(at)),
                7 if pool.len() > 1 => {
                    let mut s = pool.swap_remove(at);
                    let from = rng.below(pool.len());
                    s.d_clone_from(&*pool[from]);
                    pool.push(s);
                }
                8 => {
                    let o = rng.below(pool.len());
                    let _ = pool[at].d_eq(&*pool[o]);
                }
                9 if !self.small || rng.chance(4) => {
                    let _ = pool[at].d_debug();
                }
                _ => {}
            }
        }
        if cfg!(feature = "proto") && keys.len() <= 5 && rng.chance(6) {
            pool[0].d_iter_protocol(rng, mon);
            mon.ev("iterator protocols", 1);
        }
        mon.ev("calls", steps);
    }
}

/// Set operations on sets of any two implementations.
struct Algebra<'a> {
    mon: &'a mut Mon,
    rng: &'a mut Rng,
    small: bool,
}

impl<T: Key> PairJob<T> for Algebra<'_> {
    fn run<A, B>(&mut self, na: &'static str, a: &A, nb: &'static str, b: &B)
    where
        A: TestSet<T>,
        B: TestSet<T>,
        for<'x> <A as Set<T>>::Iterator<'x>: Clone,
        for<'x> <B as Set<T>>::Iterator<'x>: Clone,
    {
        let most = 2 * (a.len() + b.len()) + 3;
        let skip = self.rng.below(most);
        macro_rules! walk {
            ($e:expr) => {{
                let v = bounded($e, most);
                v.iter().for_each(|k| {
                    read(*k);
                });
                let mut it = $e;
                for _ in 0..skip {
                    it.next();
                }
                let h = it.size_hint();
                let mut rest = it.clone();
                if !self.small {
                    let _ = format!("{it:?}");
                }
                let (x, y) = (bounded(it, most).len(), bounded(&mut rest, most).len());
                vassert!(x == y && h.0 <= x, "set operation on {na} and {nb} yields {x} items, {y} when cloned, promised {h:?}");
                let _ = rest.next();
            }};
        }
        walk!(a.union(b));
        walk!(a.intersection(b));
        walk!(a.difference(b));
        walk!(a.symmetric_difference(b));
        let _ = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b));
        if let Some(r) = a.ops(b) {
            for v in r {
                v.iter().for_each(|k| {
                    read(k);
                });
            }
        }
        let _ = a.eq_any(b);
        self.mon.ev("set operations", 8);
    }
}

pub fn algebra(small: bool, rng: &mut Rng, mon: &mut Mon) {
    let cap = if small { 6 } else { 60 };
    let (ha, hb) = (Bh::any(rng), Bh::any(rng));
    if rng.chance(2) {
        let (a, b, how) = element_pairs::<u32>(rng, cap);
        mon.describe(|| format!("{how}: {a:?} and {b:?}"));
        mon.case(&(how, &a, &b), !a.is_empty());
        let (a, b) = (IntSet::build(a, rng, ha), IntSet::build(b, rng, hb));
        int_pair(&a, &b, &mut Algebra { mon, rng, small });
    } else {
        let (a, b, how) = element_pairs::<String>(rng, cap);
        mon.describe(|| format!("{how}: {a:?} and {b:?}"));
        mon.case(&(how, &a, &b), !a.is_empty());
        let (a, b) = (StrSet::build(a, rng, ha), StrSet::build(b, rng, hb));
        str_pair(&a, &b, &mut Algebra { mon, rng, small });
    }
}

/// Slice ranges of any kind: reversed, far out, at the ends of the integers.
fn wild_range(rng: &mut Rng) -> Range<usize> {
    let one = |rng: &mut Rng| match rng.below(6) {
        0 => usize::MAX - rng.below(4),
        1 => (usize::MAX >> 1).wrapping_add(rng.below(5)).wrapping_sub(2),
        2 => 1 << rng.below(64),
        3 => 0,
        _ => rng.below(24),
    };
    one(rng)..one(rng)
}

/// `SliceHash` and slice collections with any range. Each call may panic, and must not do worse.
pub fn slices(small: bool, rng: &mut Rng, mon: &mut Mon) {
    let n = rng.below(if small { 6 } else { 20 });
    let (keys, _) = gen_strings(rng, n);
    let mut probes = probe_strings(rng, &keys, 4);
    if small {
        probes.truncate(6);
    }
    let bh = Bh::any(rng);
    let range = wild_range(rng);
    mon.describe(|| format!("range {range:?} of {keys:?}"));
    mon.case(&(range.start, range.end, &keys), true);
    for k in keys.iter().chain(&probes).take(if small { 6 } else { 40 }) {
        let r = wild_range(rng);
        let inside = r.start <= r.end && r.end <= k.len();
        let expected = inside.then(|| {
            let mut h = bh.build_hasher();
            h.write(&k.as_bytes()[r.clone()]);
            h.finish()
        });
        for (which, got) in [("String", caught(|| SliceHash::hash(k, &bh, r.clone()))), ("[u8]", caught(|| SliceHash::hash(k.as_bytes(), &bh, r.clone())))] {
            let got = got.ok();
            vassert!(got == expected, "SliceHash of {which} {k:?} over {r:?} is {got:?}, expected {expected:?} (None: a panic)");
        }
        mon.ev("slices hashed", 2);
    }
    // reversed ranges are no ranges to begin with, but must not be dangerous
    macro_rules! go {
        ($m:ident, $s:ident) => {
            let e: Vec<(String, u64)> = keys.iter().map(|k| (k.clone(), k.len() as u64)).collect();
            let r = caught(|| $m::<String, u64, u16, Bh>::from_vec_with_hasher(e, range.clone(), bh.clone()));
            if let Ok(mut m) = r {
                vassert!(m.len() == keys.len(), "a slice map over {range:?} of {keys:?} holds {} entries", m.len());
                for k in keys.iter().chain(&probes) {
                    let g = caught(|| m.get(k).copied());
                    if range.start <= range.end {
                        vassert!(g == Ok(keys.contains(k).then(|| k.len() as u64)), "{}: get({k:?}) over {range:?} is {g:?}", stringify!($m));
                    }
                    let _ = caught(|| m.get_mut(k).map(|v| *v = k.len() as u64));
                    let _ = caught(|| m.get_key_value(k).map(|x| read(x.0)));
                    let _ = caught(|| m.get_many_mut([k, &keys[0]]).map(|v| v.into_iter().for_each(|v| *v += 0)));
                }
                mon.ev("slice collections", 1);
            } else {
                vassert!(range.start > range.end, "{} over {range:?} of {keys:?} panics", stringify!($m));
                mon.ev("slice collections refused", 1);
            }
            if let Ok(s) = caught(|| $s::<String, u16, Bh>::from_vec_with_hasher(keys.clone(), range.clone(), bh.clone())) {
                for k in keys.iter().chain(&probes) {
                    let g = caught(|| s.contains(k));
                    if range.start <= range.end {
                        vassert!(g == Ok(keys.contains(k)), "{}: contains({k:?}) over {range:?} is {g:?}", stringify!($s));
                    }
                    let _ = caught(|| s.get(k).map(read));
                }
            }
        };
    }
    if rng.chance(2) {
        go!(LeftSliceMap, LeftSliceSet);
    } else {
        go!(RightSliceMap, RightSliceSet);
    }
}

/// Keys that borrow as something that doesn't hash, measure or compare the same.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Outer(Vec<u8>, Inner);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Inner(Vec<u8>, usize);
impl Borrow<Inner> for Outer {
    fn borrow(&self) -> &Inner {
        &self.1
    }
}
impl Len for Outer {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl Len for Inner {
    fn len(&self) -> usize {
        self.1
    }
}
impl SliceHash for Outer {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        bh.hash_one(&self.0[range])
    }
}
impl SliceHash for Inner {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        bh.hash_one((self.1, range.start.wrapping_mul(77), range.end))
    }
}

pub fn borrowed(small: bool, rng: &mut Rng, mon: &mut Mon) {
    let n = rng.below(if small { 7 } else { 40 });
    let (k, _) = gen_strings(rng, n);
    let sizes: Vec<usize> = (0..8).map(|_| match rng.below(3) {
        0 => usize::MAX - rng.below(3),
        1 => 1 << rng.below(64),
        _ => rng.below(20),
    }).collect();
    let keys: Vec<Outer> = k.iter().map(|k| {
        let mut b = k.clone().into_bytes();
        b.truncate(rng.range(0, 9));
        Outer(k.clone().into_bytes(), Inner(b, *rng.pick(&sizes)))
    }).collect();
    let bh = Bh::any(rng);
    let r = vh::maps::slice_range(rng);
    mon.describe(|| format!("{keys:?}, range {r:?}, {bh:?}"));
    mon.case(&(&keys, r.start, r.end), true);
    let e = || -> Vec<(Outer, u64)> { keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect() };
    macro_rules! go {
        ($e:expr) => {{
            let mut m = $e;
            for k in &keys {
                let q = Inner(k.1 .0.clone(), *rng.pick(&sizes));
                for q in [&k.1, &q] {
                    let _ = caught(|| m.get(q).copied());
                    let _ = caught(|| m.get_key_value(q).map(|x| read(x.0)));
                    let _ = caught(|| m.contains_key(q));
                    let _ = caught(|| m.get_mut(q).map(|v| *v += 1));
                    let _ = caught(|| m.get_many_mut([q, &keys[0].1, &keys[keys.len() / 2].1]).map(|v| {
                        let p: HashSet<*const u64> = v.iter().map(|v| &**v as *const u64).collect();
                        vassert!(p.len() == 3, "get_many_mut returns two references to one value");
                        v.into_iter().for_each(|v| *v += 1)
                    }));
                }
            }
            mon.ev("maps with dissimilar borrowed keys", 1);
        }};
    }
    match rng.below(4) {
        0 => go!(CommonMap::<Outer, u64, u8, Bh>::from_vec_with_hasher(e(), bh)),
        1 => go!(LeftSliceMap::<Outer, u64, u16, Bh>::from_vec_with_hasher(e(), r, bh)),
        2 => go!(RightSliceMap::<Outer, u64, u16, Bh>::from_vec_with_hasher(e(), r, bh)),
        _ => go!(LengthMap::<Outer, u64, u16>::from_vec(e())),
    }
}

/// Key types whose names or representations are those of the specially treated ones, and keys
/// that borrow from something short-lived.
pub fn lookalikes(small: bool, rng: &mut Rng, mon: &mut Mon) {
    let n = if small { rng.below(12) } else { rng.below(300) };
    let bh = Bh::any(rng);
    let (ints, shape) = u32::gen(rng, n);
    let probes = u32::probes(rng, &ints, if small { 4 } else { 40 });
    mon.describe(|| format!("{shape} {ints:?}"));
    mon.case(&ints, ints.len() > 1);
    let have: HashSet<u32> = ints.iter().copied().collect();
    macro_rules! go {
        ($name:literal, $mk:expr) => {{
            #[allow(clippy::redundant_closure_call)]
            let keys: Vec<_> = ints.iter().map(|x| ($mk)(*x)).collect();
            let m = FrozenMap::from_vec_with_hasher(keys.iter().cloned().zip(ints.iter().copied()).collect(), bh.clone());
            let s = FrozenSet::from_vec_with_hasher(keys.clone(), bh.clone());
            vassert!(m.len() == ints.len() && s.len() == ints.len(), "FrozenMap and FrozenSet of {} of {} hold {} and {}", ints.len(), $name, m.len(), s.len());
            for x in ints.iter().chain(&probes) {
                let k = ($mk)(*x);
                let want = have.contains(x).then_some(*x);
                vassert!(m.get(&k).copied() == want, "FrozenMap of {}: get of {x} is {:?}, expected {want:?}", $name, m.get(&k));
                vassert!(s.contains(&k) == want.is_some() && s.get(&k).is_some() == want.is_some(), "FrozenSet of {}: contains of {x} is {}", $name, s.contains(&k));
                vassert!(m.get_key_value(&k).is_none_or(|e| *e.0 == k), "FrozenMap of {}: another key", $name);
            }
            let mut seen: Vec<u32> = m.values().copied().collect();
            seen.sort_unstable();
            let mut all = ints.clone();
            all.sort_unstable();
            vassert!(seen == all && m.iter().count() == all.len() && s.iter().all(|k| keys.contains(k)), "FrozenMap of {}: iteration", $name);
            mon.ev("look-alike keys", 1);
        }};
    }
    match rng.below(5) {
        0 => go!("alloc::string::String (not the real one)", |x: u32| alloc::string::String(x)),
        1 => go!("a u32 of its own", |x: u32| vh::keys::NewU32(x)),
        2 => go!("a String of its own", |x: u32| vh::keys::NewString(x.to_string())),
        3 => {
            let texts: Vec<std::string::String> = ints.iter().map(u32::to_string).collect();
            let m = FrozenMap::from_vec_with_hasher(texts.iter().map(|t| (t.as_str(), t.len())).collect(), bh);
            let more: Vec<std::string::String> = probes.iter().map(u32::to_string).collect();
            for t in texts.iter().chain(&more) {
                let want = texts.contains(t).then(|| t.len());
                vassert!(m.get(&t.as_str()).copied() == want, "FrozenMap of &str: get({t:?})");
            }
            drop(more);
            vassert!(m.iter().all(|(k, v)| k.len() == *v), "FrozenMap of &str: iteration");
            mon.ev("look-alike keys", 1);
        }
        _ => {
            // references to the special types aren't special
            let m = FrozenMap::from_vec_with_hasher(ints.iter().map(|x| (x, *x)).collect(), bh);
            for x in ints.iter().chain(&probes) {
                vassert!(m.get(&x).copied() == have.contains(x).then_some(*x), "FrozenMap of &u32: get({x})");
            }
            mon.ev("look-alike keys", 1);
        }
    }
}

/// Capacity types that say anything.
pub fn liars(small: bool, rng: &mut Rng, mon: &mut Mon) {
    let n = rng.below(if small { 4 } else { 60 });
    let (ints, _) = u32::gen(rng, n);
    let keys: Vec<std::string::String> = ints.iter().map(u32::to_string).collect();
    let mut probes = u32::probes(rng, &ints, 4);
    if small {
        probes.truncate(2);
    }
    let bh = Bh::any(rng);
    let r = vh::maps::slice_range(rng);
    let rate = *rng.pick(&[1, 2, 5, 20]);
    let seed = rng.next();
    let early = rng.chance(2);
    mon.describe(|| format!("a capacity type that lies 1 in {rate} times; {ints:?}"));
    mon.case(&(&ints, seed), n > 1);
    macro_rules! go {
        ($b:expr, $k:expr) => {{
            lie(early.then_some(seed), rate);
            let m = caught(|| $b);
            if let Ok(mut m) = m {
                lie(Some(seed ^ 5), rate);
                for x in ints.iter().chain(&probes) {
                    let k = ($k)(*x);
                    let _ = caught(|| m.get(&k).copied());
                    let _ = caught(|| m.contains_key(&k));
                    let _ = caught(|| m.get_key_value(&k).map(|e| read(e.0)));
                    let _ = caught(|| m.get_mut(&k).map(|v| *v += 1));
                    let _ = caught(|| m.get_many_mut([&k, &($k)(ints[0])]).map(|v| v.into_iter().for_each(|v| *v += 1)));
                    let c = caught(|| m.clone());
                    let _ = caught(|| c.ok().map(|c| c == m));
                }
                lie(None, 1);
                let s: u64 = m.values().sum();
                std::hint::black_box(s);
            }
            lie(None, 1);
            mon.ev("collections with a lying capacity type", 1);
        }};
    }
    macro_rules! set {
        ($b:expr, $k:expr) => {{
            lie(early.then_some(seed), rate);
            let s = caught(|| $b);
            if let Ok(s) = s {
                lie(Some(seed ^ 5), rate);
                for x in ints.iter().chain(&probes) {
                    let k = ($k)(*x);
                    let _ = caught(|| (s.contains(&k), s.get(&k).map(|k| read(k))));
                }
                let _ = caught(|| s.clone().into_iter().count());
                let _ = caught(|| (s.union(&s).count(), s.difference(&s).count(), s.is_subset(&s)));
            }
            lie(None, 1);
            mon.ev("collections with a lying capacity type", 1);
        }};
    }
    let si = |x: u32| x.to_string();
    let se: Vec<(std::string::String, u64)> = keys.iter().map(|k| (k.clone(), 7)).collect();
    match rng.below(10) {
        0 => go!(CommonMap::<_, u64, Liar, Bh>::from_vec_with_hasher(se, bh), si),
        1 => go!(LeftSliceMap::<_, u64, Liar, Bh>::from_vec_with_hasher(se, r, bh), si),
        2 => go!(RightSliceMap::<_, u64, Liar, Bh>::from_vec_with_hasher(se, r, bh), si),
        3 => go!(LengthMap::<_, u64, Liar>::from_vec(se), si),
        4 => go!(IntegerMap::<u32, u64, Liar>::from_vec(ints.iter().map(|x| (*x, 7)).collect()), |x: u32| x),
        5 => set!(CommonSet::<_, Liar, Bh>::from_vec_with_hasher(keys, bh), si),
        6 => set!(LeftSliceSet::<_, Liar, Bh>::from_vec_with_hasher(keys, r, bh), si),
        7 => set!(LengthSet::<_, Liar>::from_vec(keys), si),
        8 => set!(IntegerSet::<u32, Liar>::from_vec(ints.clone()), |x: u32| x),
        // keys that lie
        _ => go!(IntegerMap::<Liar, u64, u8>::from_vec(ints.iter().map(|x| (vh::ints::Number(u64::from(*x)), 7)).collect()), |x: u32| vh::ints::Number(u64::from(x))),
    }
    mon.ev("lies of capacity types", lies());
    vh::ints::forget_lies();
}

/// Anything at all.
pub fn any(rng: &mut Rng, mon: &mut Mon) {
    let small = cfg!(miri);
    use vh::catalog::{every_map, every_set, facade_map, facade_set, special_map, special_set};
    match rng.below(if small { 23 } else { 24 }) {
        0..=3 => facade_map(&Broad { small }, rng, mon),
        4..=6 => special_map(&Broad { small }, rng, mon),
        7 => every_map(&Broad { small }, rng, mon),
        8..=10 => facade_set(&Broad { small }, rng, mon),
        11..=13 => special_set(&Broad { small }, rng, mon),
        14 => every_set(&Broad { small }, rng, mon),
        15 | 16 => algebra(small, rng, mon),
        17 | 18 => slices(small, rng, mon),
        19 => borrowed(small, rng, mon),
        20 | 21 => lookalikes(small, rng, mon),
        _ => liars(small, rng, mon),
    }
}
