//! C18: what a lookup costs: hash codes, bytes hashed, comparisons.

use std::cell::{Cell, RefCell};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Range;
use std::time::Instant;

use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::{CommonMap, IntegerMap, LeftSliceMap, LengthMap, RightSliceMap};
use frozen_collections_core::specialized_sets::{CommonSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use vh::catalog::{facade_map, facade_set, special_map, special_set, MapJob, MkVal, SetJob};
use vh::checks::{describe_case, entries};
use vh::hashers::{counts, reset_counts, Bh, LAST_TAG};
use vh::ints::{compared, Int, Number};
use vh::keys::{gen_size, Key};
use vh::maps::{slice_range, MapSpec};
use vh::rng::{mix, Rng};
use vh::run::{run_cases, Mon};
use vh::sets::SetSpec;
use vh::vassert;

/// How many hash codes a lookup may compute.
fn allowed(spec: &str, key: &str) -> u64 {
    let never = ["Scanning", "Integer", "Length"].iter().any(|x| spec.starts_with(x)) || (spec == "FrozenMap" || spec == "FrozenSet") && key == "u32";
    u64::from(!never)
}

/// Whether all recipes of the collection use the hasher they are given.
fn ours(spec: &str) -> bool {
    !spec.contains("RandomState")
}

struct Job;

fn measure<R>(what: &str, op: &str, most: u64, tag: Option<u64>, mon: &mut Mon, f: impl FnOnce() -> R) -> R {
    reset_counts();
    LAST_TAG.set(0);
    let r = f();
    let c = counts();
    vassert!(c.builds <= most, "{what}: {op} computes {} hash codes, expected at most {most}", c.builds);
    vassert!(c.finishes <= most, "{what}: {op} finishes {} hash codes, expected at most {most}", c.finishes);
    if let (1.., Some(tag)) = (c.builds, tag) {
        vassert!(LAST_TAG.get() == tag, "{what}: {op} hashes with another hasher than the one supplied");
        mon.ev("lookups that used the supplied hasher", 1);
    }
    mon.ev("lookups whose hash codes were counted", 1);
    mon.ev(if c.builds == 0 { "of them without any" } else { "of them with one" }, 1);
    r
}

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let n = gen_size(rng, 700);
        let (keys, shape) = K::gen(rng, n);
        let mut probes = K::probes(rng, &keys, 30);
        rng.shuffle(&mut probes);
        probes.truncate(60);
        let fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys) && ours(s.name)).collect();
        let Some(spec) = (if fitting.is_empty() { None } else { Some(*rng.pick(&fitting)) }) else { return };
        let tag = rng.next() | 1;
        let bh = Bh { tag, ..Bh::any(rng) };
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, K::NAME, &keys), keys.len() >= 2);
        mon.ev(spec.name, 1);
        mon.sample(2, || describe_case(spec.name, &keys, shape, &bh));
        reset_counts();
        let mut m = (spec.build)(entries::<K, V>(&keys, 1), rng, bh);
        // some recipes make a hasher of their own
        let given = counts().builds > 0;
        if rng.chance(3) {
            m = m.d_clone();
        }
        let most = allowed(spec.name, K::NAME);
        for p in &probes {
            let w = spec.name;
            let t = given.then_some(tag);
            measure(w, "get", most, t, mon, || m.d_get(p).is_some());
            let there = measure(w, "contains_key", most, t, mon, || m.d_contains(p));
            measure(w, "get_key_value", most, t, mon, || m.d_get_kv(p).is_some());
            measure(w, "get_mut", most, t, mon, || m.d_get_mut(p).is_some());
            if there {
                let k = p.clone();
                measure(w, "indexing", most, t, mon, || m.d_index(k).clone());
                let k = p.clone();
                measure(w, "mutable indexing", most, t, mon, || m.d_index_mut(k).clone());
            }
        }
    }
}

impl SetJob for Job {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        let n = gen_size(rng, 700);
        let (keys, shape) = T::gen(rng, n);
        let mut probes = T::probes(rng, &keys, 30);
        rng.shuffle(&mut probes);
        probes.truncate(60);
        let fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys) && ours(s.name)).collect();
        let Some(spec) = (if fitting.is_empty() { None } else { Some(*rng.pick(&fitting)) }) else { return };
        let tag = rng.next() | 1;
        let bh = Bh { tag, ..Bh::any(rng) };
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, T::NAME, &keys), keys.len() >= 2);
        mon.ev(spec.name, 1);
        reset_counts();
        let mut s = (spec.build)(keys, rng, bh);
        let given = counts().builds > 0;
        if rng.chance(3) {
            s = s.d_clone();
        }
        let most = allowed(spec.name, T::NAME);
        for p in &probes {
            let t = given.then_some(tag);
            measure(spec.name, "contains", most, t, mon, || s.d_contains(p));
            measure(spec.name, "Set::contains", most, t, mon, || s.d_contains_trait(p));
            measure(spec.name, "get", most, t, mon, || s.d_get(p).is_some());
        }
    }
}

// ---------------------------------------------------------------------------------------------

thread_local! {
    static EQS: Cell<u64> = const { Cell::new(0) };
    static READ: RefCell<Vec<(usize, Range<usize>)>> = const { RefCell::new(Vec::new()) };
}

/// Counts comparisons, and records which slices are asked for.
#[derive(Clone, Debug)]
struct Text(String);
impl PartialEq for Text {
    fn eq(&self, o: &Self) -> bool {
        EQS.set(EQS.get() + 1);
        self.0 == o.0
    }
}
impl Eq for Text {}
impl Hash for Text {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write(self.0.as_bytes());
    }
}
impl Len for Text {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl SliceHash for Text {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        READ.with(|r| r.borrow_mut().push((self.0.len(), range.clone())));
        SliceHash::hash(&self.0, bh, range)
    }
}

/// Slice collections hash the slice of the key they look up, and nothing else.
fn slices(rng: &mut Rng, mon: &mut Mon) {
    let n = gen_size(rng, 240);
    let (keys, shape) = String::gen(rng, n);
    let mut probes = String::probes(rng, &keys, 60);
    rng.shuffle(&mut probes);
    probes.truncate(120);
    let bh = Bh::any(rng);
    let r = slice_range(rng);
    let left = rng.chance(2);
    mon.describe(|| format!("{} slice {r:?}: {}", if left { "left" } else { "right" }, describe_case("", &keys, shape, &bh)));
    mon.case(&("slices", left, r.start, r.end, &keys), keys.len() >= 2);
    mon.ev("slice collections", 1);
    let set = rng.chance(3);
    let what = format!("{} of {r:?}", ["RightSliceMap", "LeftSliceMap", "RightSliceSet", "LeftSliceSet"][usize::from(left) + 2 * usize::from(set)]);
    let e: Vec<(Text, u64)> = keys.iter().map(|k| Text(k.clone())).zip(0..).collect();
    let t: Vec<Text> = e.iter().map(|x| x.0.clone()).collect();
    let get: Box<dyn Fn(&Text) -> bool> = match (left, set) {
        (true, false) => {
            let m = LeftSliceMap::<Text, u64, u8, Bh>::from_vec_with_hasher(e, r.clone(), bh);
            Box::new(move |k| m.get(k).is_some())
        }
        (false, false) => {
            let m = RightSliceMap::<Text, u64, u8, Bh>::from_vec_with_hasher(e, r.clone(), bh);
            Box::new(move |k| m.get(k).is_some())
        }
        (true, true) => {
            let m = LeftSliceSet::<Text, u8, Bh>::from_vec_with_hasher(t, r.clone(), bh);
            Box::new(move |k| m.contains(k))
        }
        (false, true) => {
            let m = RightSliceSet::<Text, u8, Bh>::from_vec_with_hasher(t, r.clone(), bh);
            Box::new(move |k| m.contains(k))
        }
    };
    for p in &probes {
        let k = Text(p.clone());
        READ.with(|r| r.borrow_mut().clear());
        reset_counts();
        let there = get(&k);
        let read = READ.with(|r| r.borrow().clone());
        let l = p.len();
        vassert!(there == keys.contains(p), "{what}: {p:?} is reported {}", if there { "present" } else { "absent" });
        vassert!(read.len() <= 1, "{what}: a lookup hashes {} slices", read.len());
        let expect = if left { r.clone() } else { l.saturating_sub(r.end)..l.saturating_sub(r.start) };
        for (len, got) in &read {
            vassert!(*len == l && l >= r.end, "{what}: a key of {l} bytes is hashed by slice {got:?} although it has no such slice");
            vassert!(*got == expect, "{what}: a lookup of a key of {l} bytes reads slice {got:?}, expected {expect:?}");
        }
        vassert!(counts().bytes <= (r.end - r.start) as u64 || read.is_empty(), "{what}: a lookup hashes {} bytes", counts().bytes);
        mon.ev("slices read", read.len() as u64);
        mon.ev("keys too short to have the slice", u64::from(read.is_empty()));
    }
}

fn average(what: &str, n: usize, hits: (u64, u64), misses: (u64, u64), mon: &mut Mon) {
    let h = hits.0 as f64 / hits.1.max(1) as f64;
    let m = misses.0 as f64 / misses.1.max(1) as f64;
    // a facade may well look through a handful of keys one by one
    let few = n < 64 && what.starts_with("Frozen");
    let (hit, miss) = if few { (6.0, 11.0) } else { (2.5, 2.0) };
    vassert!(h <= hit, "{what}: finding one of {n} keys takes {h:.2} comparisons on average");
    vassert!(m <= miss, "{what}: missing a key among {n} takes {m:.2} comparisons on average");
    if few {
        mon.ev("small collections by facades", 1);
        return;
    }
    mon.max("comparisons per hit, average", h);
    mon.max("comparisons per miss, average", m);
    mon.ev("comparisons counted", hits.0 + misses.0);
    mon.ev("lookups whose comparisons were counted", hits.1 + misses.1);
    mon.ev(what, 1);
}

fn big(rng: &mut Rng) -> usize {
    match rng.below(9) {
        0 | 1 => rng.range(64, 140),
        8 => rng.range(20, 63),
        2 | 3 => rng.range(128, 300),
        4 => rng.range(300, 1100),
        5 => rng.range(990, 1010),
        6 => rng.range(1000, 6000),
        _ => rng.range(6000, 60_000),
    }
}

/// One of four ways to look a key up.
fn by<C, K>(
    how: usize,
    k: &K,
    c: &mut C,
    get: impl Fn(&C, &K) -> bool,
    contains: impl Fn(&C, &K) -> bool,
    get_kv: impl Fn(&C, &K) -> bool,
    get_mut: impl Fn(&mut C, &K) -> bool,
) -> bool {
    match how {
        0 => get(c, k),
        1 => contains(c, k),
        2 => get_kv(c, k),
        _ => get_mut(c, k),
    }
}

/// How many keys are compared, when hash codes are well spread.
fn comparisons(rng: &mut Rng, mon: &mut Mon) {
    let n = big(rng);
    let bh = Bh::good(rng);
    let salt = rng.next();
    let which = rng.below(14);
    let how = rng.below(4);
    mon.describe(|| format!("{n} keys, kind {which}, lookup {how}, {bh:?}, salt {salt}"));
    mon.case(&("comparisons", which, n, salt), true);
    let misses = n.min(3000).max(500);
    macro_rules! texts {
        ($name:expr, $mk:expr, $find:expr, $build:expr) => {{
            let mk = $mk;
            let keys: Vec<Text> = (0..n).map(|i| Text(mk(i))).collect();
            let absent: Vec<Text> = (n..n + misses).map(|i| Text(mk(i))).collect();
            #[allow(unused_mut)]
            let mut c = $build(keys.clone());
            let find = $find;
            EQS.set(0);
            for k in &keys {
                let f = find(&mut c, k);
                vassert!(f, "{}: lacks {k:?}", $name);
            }
            let h = EQS.replace(0);
            for k in &absent {
                let f = find(&mut c, k);
                vassert!(!f, "{}: finds {k:?}", $name);
            }
            average($name, n, (h, n as u64), (EQS.get(), misses as u64), mon);
        }};
    }
    let pairs = |k: Vec<Text>| k.into_iter().zip(0u64..).collect::<Vec<_>>();
    let num = |i: usize| format!("{:016x}", mix(salt ^ i as u64));
    let head = |i: usize| format!("{:016x}{}", mix(salt ^ i as u64), "-".repeat(i % 7));
    let tail = |i: usize| format!("{}{:016x}", "-".repeat(i % 7), mix(salt ^ i as u64));
    macro_rules! ints {
        ($name:expr, $find:expr, $build:expr) => {{
            let seq = rng.chance(3);
            let at = |i: usize| Number(if seq { salt.wrapping_add(i as u64) } else { mix(salt ^ i as u64) });
            let keys: Vec<Int> = (0..n).map(at).collect();
            #[allow(unused_mut)]
            let mut c = $build(keys.clone());
            let find = $find;
            let c0 = compared();
            for k in &keys {
                vassert!(find(&mut c, k), "{}: lacks {k:?}", $name);
            }
            let c1 = compared();
            for i in n..n + misses {
                vassert!(!find(&mut c, &at(i)), "{}: finds {:?}", $name, at(i));
            }
            average($name, n, (c1 - c0, n as u64), (compared() - c1, misses as u64), mon);
        }};
    }
    match which {
        0 => texts!("FrozenMap", num, |c: &mut FrozenMap<Text, u64, Bh>, k: &Text| by(how, k, c, |c, k| c.get(k).is_some(), |c, k| c.contains_key(k), |c, k| c.get_key_value(k).is_some(), |c, k| c.get_mut(k).is_some()), |k| FrozenMap::from_vec_with_hasher(pairs(k), bh.clone())),
        1 => texts!("FrozenSet", num, |c: &mut FrozenSet<Text, Bh>, k: &Text| if how % 2 == 0 { c.contains(k) } else { c.get(k).is_some() }, |k| FrozenSet::from_vec_with_hasher(k, bh.clone())),
        2 => texts!("CommonMap", num, |c: &mut CommonMap<Text, u64, u32, Bh>, k: &Text| by(how, k, c, |c, k| c.get(k).is_some(), |c, k| c.contains_key(k), |c, k| c.get_key_value(k).is_some(), |c, k| c.get_mut(k).is_some()), |k| CommonMap::from_vec_with_hasher(pairs(k), bh.clone())),
        3 => texts!("CommonSet", num, |c: &mut CommonSet<Text, u16, Bh>, k: &Text| if how % 2 == 0 { c.contains(k) } else { c.get(k).is_some() }, |k| CommonSet::from_vec_with_hasher(k, bh.clone())),
        4 => texts!("LeftSliceMap", head, |c: &mut LeftSliceMap<Text, u64, u32, Bh>, k: &Text| by(how, k, c, |c, k| c.get(k).is_some(), |c, k| c.contains_key(k), |c, k| c.get_key_value(k).is_some(), |c, k| c.get_mut(k).is_some()), |k| LeftSliceMap::from_vec_with_hasher(pairs(k), 1..14, bh.clone())),
        5 => texts!("LeftSliceSet", head, |c: &mut LeftSliceSet<Text, u16, Bh>, k: &Text| if how % 2 == 0 { c.contains(k) } else { c.get(k).is_some() }, |k| LeftSliceSet::from_vec_with_hasher(k, 0..12, bh.clone())),
        6 => texts!("RightSliceMap", tail, |c: &mut RightSliceMap<Text, u64, u32, Bh>, k: &Text| by(how, k, c, |c, k| c.get(k).is_some(), |c, k| c.contains_key(k), |c, k| c.get_key_value(k).is_some(), |c, k| c.get_mut(k).is_some()), |k| RightSliceMap::from_vec_with_hasher(pairs(k), 1..14, bh.clone())),
        7 => texts!("RightSliceSet", tail, |c: &mut RightSliceSet<Text, u16, Bh>, k: &Text| if how % 2 == 0 { c.contains(k) } else { c.get(k).is_some() }, |k| RightSliceSet::from_vec_with_hasher(k, 0..12, bh.clone())),
        8 | 9 => {
            // lengths all differ, so they are perfect hash codes
            let n = n.min(600);
            let map = which == 8;
            let mk = |i: usize| Text("l".repeat(i));
            let keys: Vec<Text> = (0..n).map(mk).collect();
            let absent: Vec<Text> = (n..2 * n).map(mk).collect();
            let find: Box<dyn Fn(&Text) -> bool> = if map {
                let c = LengthMap::<Text, u64, u16>::from_vec(pairs(keys.clone()));
                let c = RefCell::new(c);
                Box::new(move |k| by(how, k, &mut *c.borrow_mut(), |c, k| c.get(k).is_some(), |c, k| c.contains_key(k), |c, k| c.get_key_value(k).is_some(), |c, k| c.get_mut(k).is_some()))
            } else {
                let c = LengthSet::<Text, u16>::from_vec(keys.clone());
                Box::new(move |k| if how % 2 == 0 { c.contains(k) } else { c.get(k).is_some() })
            };
            EQS.set(0);
            for k in &keys {
                vassert!(find(k), "LengthMap or LengthSet lacks a key of length {}", k.0.len());
            }
            let h = EQS.replace(0);
            for k in &absent {
                vassert!(!find(k), "LengthMap or LengthSet finds a key of length {}", k.0.len());
            }
            average(if map { "LengthMap" } else { "LengthSet" }, n, (h, n as u64), (EQS.get(), n as u64), mon);
        }
        10 => ints!("IntegerMap", |c: &mut IntegerMap<Int, u64, u32>, k: &Int| by(how, k, c, |c, k| c.get(k).is_some(), |c, k| c.contains_key(k), |c, k| c.get_key_value(k).is_some(), |c, k| c.get_mut(k).is_some()), |k: Vec<Int>| IntegerMap::from_vec(k.into_iter().zip(0u64..).collect())),
        11 => ints!("IntegerSet", |c: &mut IntegerSet<Int, u32>, k: &Int| if how % 2 == 0 { c.contains(k) } else { c.get(k).is_some() }, |k| IntegerSet::from_vec(k)),
        12 => ints!("FrozenMap of integers", |c: &mut FrozenMap<Int, u64, Bh>, k: &Int| by(how, k, c, |c, k| c.get(k).is_some(), |c, k| c.contains_key(k), |c, k| c.get_key_value(k).is_some(), |c, k| c.get_mut(k).is_some()), |k: Vec<Int>| FrozenMap::from_vec_with_hasher(k.into_iter().zip(0u64..).collect(), bh.clone())),
        _ => {
            // several at once: each key is hashed once
            let e = pairs((0..n).map(|i| Text(num(i))).collect());
            let mut m = CommonMap::<Text, u64, u32, Bh>::from_vec_with_hasher(e, bh.clone());
            let mut f = FrozenMap::<Text, u64, Bh>::from_vec_with_hasher(pairs((0..n).map(|i| Text(num(i))).collect()), bh);
            let (mut ours, mut theirs) = (0, 0);
            for _ in 0..200 {
                let k: Vec<Text> = (0..3).map(|_| Text(num(rng.below(n + n / 4)))).collect();
                reset_counts();
                EQS.set(0);
                let a = m.get_many_mut([&k[0], &k[1], &k[2]]).is_some();
                ours += EQS.replace(0);
                let c = counts().builds;
                vassert!(c <= 3, "CommonMap: get_many_mut of 3 keys computes {c} hash codes");
                reset_counts();
                let b = f.get_many_mut([&k[0], &k[1], &k[2]]).is_some();
                let c = counts().builds;
                vassert!(c <= 3 && a == b, "FrozenMap: get_many_mut of 3 keys computes {c} hash codes");
                theirs += EQS.replace(0);
                mon.ev("requests for several values", 2);
            }
            average("CommonMap", n, (ours, 600), (0, 0), mon);
            average("FrozenMap", n, (theirs, 600), (0, 0), mon);
        }
    }
}

/// For keys whose comparisons can't be counted, lookups in a large collection are compared with
/// those in a small one by the time they take.
fn timed(rng: &mut Rng, mon: &mut Mon) {
    let n = rng.range(30_000, 60_000);
    let salt = rng.next();
    let kind = rng.below(6);
    mon.describe(|| format!("{n} keys, kind {kind}, salt {salt}"));
    mon.case(&("timed", kind, n, salt), true);
    let fast = |find: &dyn Fn(usize) -> bool| -> f64 {
        let mut best = f64::MAX;
        for round in 0..8usize {
            let t = Instant::now();
            for i in 0..1000 {
                // every other one absent
                let j = (i * 7919 + round * 131) % (2 * n);
                assert!(find(j) == (j < n));
            }
            best = best.min(t.elapsed().as_secs_f64() / 1000.0);
        }
        best
    };
    let bh = Bh::good(rng);
    let int = |i: usize| (i as u32).wrapping_mul(2_654_435_761) ^ salt as u32;
    let text = |i: usize| match kind {
        2 => format!("{:08x}", int(i)),
        3 => format!("{:016x}{}", mix(salt ^ i as u64), "-".repeat(i % 5)),
        4 => format!("{}{:016x}", "-".repeat(i % 5), mix(salt ^ i as u64)),
        _ => format!("{}{i}", "common start, then a number: "),
    };
    let t = match kind {
        0 => {
            let m = FrozenMap::from_vec_with_hasher((0..n).map(|i| (int(i), i)).collect(), bh);
            fast(&|i| m.get(&int(i)) == Some(&i))
        }
        1 => {
            let s = FrozenSet::from_vec_with_hasher((0..n as u32).map(|i| i.wrapping_add(salt as u32)).collect(), bh);
            fast(&|i| s.contains(&(salt as u32).wrapping_add(i as u32)))
        }
        5 => {
            let s = FrozenSet::from_vec_with_hasher((0..n).map(text).collect(), bh);
            let k: Vec<String> = (0..2 * n).map(text).collect();
            fast(&|i| s.contains(&k[i]))
        }
        _ => {
            let m = FrozenMap::from_vec_with_hasher((0..n).map(|i| (text(i), i)).collect(), bh);
            let k: Vec<String> = (0..2 * n).map(text).collect();
            fast(&|i| m.get(&k[i]) == Some(&i))
        }
    };
    // comparing with every key of 30000 would take at least 15 µs
    vassert!(t < 8e-6, "lookups in a collection of {n} entries take {:.1} µs on average", t * 1e6);
    mon.max("time of a lookup among tens of thousands, µs", t * 1e6);
    mon.ev("large collections timed", 1);
}

fn main() {
    run_cases(|i, rng, mon| match i % 16 {
        0..=3 => facade_map(&Job, rng, mon),
        4 | 5 => facade_set(&Job, rng, mon),
        6 | 7 => special_map(&Job, rng, mon),
        8 => special_set(&Job, rng, mon),
        9..=11 => slices(rng, mon),
        12 if i % 64 == 12 && cfg!(not(debug_assertions)) => timed(rng, mon),
        _ => comparisons(rng, mon),
    });
}
