//! C16: capacities and ranges are enforced, and nothing that is built drops, merges or invents entries.

use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

use frozen_collections_core::specialized_maps::{CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap};
use frozen_collections_core::specialized_sets::{CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet};
use num_traits::{AsPrimitive, PrimInt};
use vh::hashers::{Bh, Mode};
use vh::ints::Int;
use vh::keys::Key;
use vh::maps::{self, any_keys, facade_specs, hashed_specs, hashed_specs_wide, integer_specs, length_specs, slice_range, slice_specs, MapDyn, MapSpec};
use vh::rng::Rng;
use vh::run::{caught, run_cases, Mon};
use vh::sets::{
    self, facade_set_specs, hashed_set_specs, hashed_set_specs_wide, integer_set_specs, length_set_specs, slice_set_specs, SetDyn, SetSpec,
};
use vh::{vassert, vfail};

/// Exactly `n` distinct keys.
trait Many: Key {
    fn many(rng: &mut Rng, n: usize) -> Vec<Self>;
    fn other(rng: &mut Rng) -> Self;
}
impl Many for u32 {
    fn many(rng: &mut Rng, n: usize) -> Vec<u32> {
        let start = if rng.chance(3) { 0 } else { rng.next() as u32 };
        let step = if rng.chance(3) { 1 } else { (rng.next() as u32 >> rng.below(31)) | 1 };
        let mut v: Vec<u32> = (0..n as u32).map(|i| start.wrapping_add(i.wrapping_mul(step))).collect();
        if rng.chance(2) {
            rng.shuffle(&mut v);
        }
        v
    }
    fn other(rng: &mut Rng) -> u32 {
        rng.next() as u32
    }
}
impl Many for String {
    fn many(rng: &mut Rng, n: usize) -> Vec<String> {
        let pre = "p".repeat(rng.below(12));
        let post = "q".repeat(rng.below(4));
        let shape = rng.below(5);
        let mut v: Vec<String> = (0..n)
            .map(|i| match shape {
                0 => format!("{pre}{i:07}{post}"),
                1 => format!("{pre}{i}{post}"),
                2 => format!("{}{i:07}{post}", "x".repeat(i % 13)),
                3 => format!("{i:07}{}", "y".repeat(i % 13)),
                _ => {
                    // lengths all differ, as long as that is reasonable
                    if n <= 1200 {
                        "z".repeat(i)
                    } else {
                        format!("{i:x}{}", "z".repeat(i % 300))
                    }
                }
            })
            .collect();
        if rng.chance(2) {
            rng.shuffle(&mut v);
        }
        v
    }
    fn other(rng: &mut Rng) -> String {
        format!("p{}", rng.next() % 100_000)
    }
}

fn limit(name: &str) -> Option<usize> {
    if name.contains("<u8>") {
        Some(u8::MAX as usize)
    } else if name.contains("<u16>") {
        Some(u16::MAX as usize)
    } else {
        None
    }
}

fn size(rng: &mut Rng, name: &str, slow: bool) -> usize {
    match limit(name) {
        Some(255) => match rng.below(8) {
            0 => rng.below(5),
            1..=3 => rng.range(253, 255),
            4..=6 => rng.range(256, 258),
            _ => *rng.pick(&[259, 300, 510, 511, 512, 513, 768, 1000, 65_536, 65_792]),
        },
        Some(_) => match rng.below(8) {
            0 => rng.range(250, 260),
            1..=3 => rng.range(65_533, 65_535),
            4..=6 => rng.range(65_536, 65_538),
            _ => *rng.pick(&[66_000, 131_071, 131_072]),
        },
        // lookups in it take linear time
        None if slow => rng.range(250, 260),
        None => match rng.below(4) {
            0..=2 => rng.range(250, 260),
            _ => rng.range(65_530, 65_540),
        },
    }
}

/// A hasher under which tens of thousands of entries can still be looked up.
fn hasher(rng: &mut Rng, n: usize) -> Bh {
    if n > 2000 {
        Bh::new(if rng.chance(2) { Mode::Mixed } else { Mode::Sip }, rng.next())
    } else {
        Bh::any(rng)
    }
}

fn whole_map<K: Key>(what: &str, m: &dyn MapDyn<K, u64>, e: &[(K, u64)], others: &[K], rng: &mut Rng) {
    let n = e.len();
    vassert!(m.d_len() == n, "{what}: holds {} entries, built from {n}", m.d_len());
    let want: HashMap<&K, u64> = e.iter().map(|x| (&x.0, x.1)).collect();
    let it = m.d_iter();
    vassert!(it.len() == n, "{what}: iteration visits {} entries, built from {n}", it.len());
    let mut seen = HashSet::new();
    for (k, v) in it {
        vassert!(want.get(k) == Some(v), "{what}: holds ({k:?}, {v}), which it wasn't built from");
        vassert!(seen.insert(k), "{what}: holds {k:?} twice");
    }
    let step = 1 + n / 600;
    let at = rng.below(step);
    for (k, v) in e[at.min(n)..].iter().step_by(step).chain(e.last()) {
        vassert!(m.d_get(k) == Some(v), "{what}: get({k:?}) of {n} entries is {:?}, expected {v}", m.d_get(k));
    }
    for k in others {
        vassert!(m.d_get(k) == want.get(k), "{what}: get({k:?}) is {:?}, expected {:?}", m.d_get(k), want.get(k));
    }
}

fn whole_set<T: Key>(what: &str, s: &dyn SetDyn<T>, e: &[T], others: &[T], rng: &mut Rng) {
    let n = e.len();
    vassert!(s.d_len() == n, "{what}: holds {} values, built from {n}", s.d_len());
    let want: HashSet<&T> = e.iter().collect();
    let it = s.d_iter();
    vassert!(it.len() == n, "{what}: iteration visits {} values, built from {n}", it.len());
    let mut seen = HashSet::new();
    for k in it {
        vassert!(want.contains(k), "{what}: holds {k:?}, which it wasn't built from");
        vassert!(seen.insert(k), "{what}: holds {k:?} twice");
    }
    let step = 1 + n / 600;
    let at = rng.below(step);
    for k in e[at.min(n)..].iter().step_by(step).chain(e.last()) {
        vassert!(s.d_get(k) == Some(k), "{what}: get({k:?}) of {n} values is {:?}", s.d_get(k));
    }
    for k in others {
        vassert!(s.d_contains(k) == want.contains(k), "{what}: contains({k:?}) is {}", s.d_contains(k));
    }
}

fn verdict<T>(what: &str, r: Result<T, String>, n: usize, max: Option<usize>, mon: &mut Mon) -> Option<T> {
    let over = max.is_some_and(|m| n > m);
    match r {
        Ok(x) => {
            vassert!(!over, "{what}: accepts {n} entries, its capacity type counts up to {}", max.unwrap());
            mon.ev("accepted", 1);
            if Some(n) == max {
                mon.ev("accepted, exactly full", 1);
            }
            Some(x)
        }
        Err(e) => {
            vassert!(over, "{what}: refuses {n} entries: {e}");
            mon.ev("refused", 1);
            if Some(n) == max.map(|m| m + 1) {
                mon.ev("refused, one too many", 1);
            }
            None
        }
    }
}

fn map_case<K: Many>(rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, u64>]) {
    let spec = rng.pick(specs);
    let what = spec.name;
    let slow = what.starts_with("Scanning") || what.starts_with("Length");
    let n = size(rng, what, slow);
    let keys = K::many(rng, n);
    let bh = hasher(rng, n);
    mon.describe(|| vh::checks::describe_case(what, &keys, "numbered", &bh));
    mon.case(&(what, n, keys.first().cloned(), keys.last().cloned()), true);
    mon.ev(what, 1);
    mon.sample(4, || format!("{what} of {n} keys"));
    let e: Vec<(K, u64)> = keys.into_iter().zip(7..).collect();
    let f = e.clone();
    let r = caught(|| (spec.build)(f, rng, bh));
    if let Some(m) = verdict(what, r, n, if spec.facade { None } else { limit(what) }, mon) {
        let others: Vec<K> = (0..20).map(|_| K::other(rng)).collect();
        if n > 2000 && slow {
            vassert!(m.d_len() == n && m.d_iter().len() == n, "{what}: holds {} entries, built from {n}", m.d_len());
            return;
        }
        whole_map(what, &*m, &e, &others, rng);
    }
}

fn set_case<T: Many>(rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
    let spec = rng.pick(specs);
    let what = spec.name;
    let slow = what.starts_with("Scanning") || what.starts_with("Length");
    let n = size(rng, what, slow);
    let keys = T::many(rng, n);
    let bh = hasher(rng, n);
    mon.describe(|| vh::checks::describe_case(what, &keys, "numbered", &bh));
    mon.case(&(what, n, keys.first().cloned(), keys.last().cloned()), true);
    mon.ev(what, 1);
    let f = keys.clone();
    let r = caught(|| (spec.build)(f, rng, bh));
    if let Some(m) = verdict(what, r, n, if spec.facade { None } else { limit(what) }, mon) {
        let others: Vec<T> = (0..20).map(|_| T::other(rng)).collect();
        if n > 2000 && slow {
            vassert!(m.d_len() == n && m.d_iter().len() == n, "{what}: holds {} values, built from {n}", m.d_len());
            return;
        }
        whole_set(what, &*m, &keys, &others, rng);
    }
}

/// More capacity types than the other checks use.
fn more_int_maps() -> Vec<MapSpec<u32, u64>> {
    let s = |name, build| MapSpec { name, facade: false, fits: any_keys, build };
    vec![
        s("CommonMap<u128>", maps::common_map::<u32, u64, u128>),
        s("CommonMap<user type>", maps::common_map::<u32, u64, Int>),
        s("IntegerMap<u32>", maps::integer_map::<u32, u64, u32>),
        s("IntegerMap<u64>", maps::integer_map::<u32, u64, u64>),
        s("IntegerMap<u128>", maps::integer_map::<u32, u64, u128>),
    ]
}
fn more_str_maps() -> Vec<MapSpec<String, u64>> {
    let s = |name, build| MapSpec { name, facade: false, fits: any_keys, build };
    vec![
        s("LeftSliceMap<u16>", maps::left_map::<String, u64, u16>),
        s("RightSliceMap<u16>", maps::right_map::<String, u64, u16>),
        s("LeftSliceMap<u32>", maps::left_map::<String, u64, u32>),
        s("RightSliceMap<u128>", maps::right_map::<String, u64, u128>),
        s("LengthMap<usize>", maps::length_map::<String, u64, usize>),
    ]
}
fn more_int_sets() -> Vec<SetSpec<u32>> {
    let s = |name, build| SetSpec { name, facade: false, fits: any_keys, build };
    vec![
        s("CommonSet<u64>", sets::common_set::<u32, u64>),
        s("IntegerSet<u32>", sets::integer_set::<u32, u32>),
        s("IntegerSet<u128>", sets::integer_set::<u32, u128>),
    ]
}
fn more_str_sets() -> Vec<SetSpec<String>> {
    let s = |name, build| SetSpec { name, facade: false, fits: any_keys, build };
    vec![
        s("LeftSliceSet<u16>", sets::left_set::<String, u16>),
        s("RightSliceSet<u16>", sets::right_set::<String, u16>),
        s("LengthSet<usize>", sets::length_set::<String, usize>),
    ]
}

/// Arrays just as long as the capacity allows, and one longer.
fn arrays<const N: usize>(rng: &mut Rng, mon: &mut Mon) {
    let max = Some(255);
    let ik: [u32; N] = u32::many(rng, N).try_into().unwrap();
    let sk: [String; N] = String::many(rng, N).try_into().unwrap();
    let mut i = 0u64;
    let im: [(u32, u64); N] = ik.map(|k| {
        i += 1;
        (k, i)
    });
    let sm: [(String, u64); N] = sk.clone().map(|k| {
        i += 1;
        (k, i)
    });
    let bh = Bh::any(rng);
    let r = slice_range(rng);
    mon.describe(|| format!("arrays of {N}, {bh:?}, {r:?}"));
    mon.case(&("array", N, ik.first(), sk.first()), true);
    macro_rules! map {
        ($name:literal, $e:expr, $from:ident, $k:ty) => {{
            let r: Result<Box<dyn MapDyn<$k, u64>>, String> = caught(|| Box::new($e) as _);
            if let Some(m) = verdict(concat!($name, " from an array"), r, N, max, mon) {
                whole_map($name, &*m, &$from, &[<$k>::other(rng)], rng);
            }
        }};
    }
    macro_rules! set {
        ($name:literal, $e:expr, $from:ident, $k:ty) => {{
            let r: Result<Box<dyn SetDyn<$k>>, String> = caught(|| Box::new($e) as _);
            if let Some(m) = verdict(concat!($name, " from an array"), r, N, max, mon) {
                whole_set($name, &*m, &$from, &[<$k>::other(rng)], rng);
            }
        }};
    }
    match rng.below(12) {
        0 => map!("CommonMap", CommonMap::<u32, u64, u8>::from(im), im, u32),
        1 => map!("CommonMap", CommonMap::<u32, u64, u8, Bh>::with_hasher(im, bh.clone()), im, u32),
        2 => map!("IntegerMap", IntegerMap::<u32, u64, u8>::from(im), im, u32),
        3 => map!("LeftSliceMap", LeftSliceMap::<String, u64, u8>::from(sm.clone(), r.clone()), sm, String),
        4 => map!("RightSliceMap", RightSliceMap::<String, u64, u8, Bh>::with_hasher(sm.clone(), r.clone(), bh.clone()), sm, String),
        5 => map!("LengthMap", LengthMap::<String, u64, u8>::from(sm.clone()), sm, String),
        6 => set!("CommonSet", CommonSet::<u32, u8>::from(ik), ik, u32),
        7 => set!("CommonSet", CommonSet::<String, u8, Bh>::with_hasher(sk.clone(), bh.clone()), sk, String),
        8 => set!("IntegerSet", IntegerSet::<u32, u8>::from(ik), ik, u32),
        9 => set!("LeftSliceSet", LeftSliceSet::<String, u8, Bh>::with_hasher(sk.clone(), r.clone(), bh.clone()), sk, String),
        10 => set!("RightSliceSet", RightSliceSet::<String, u8>::from(sk.clone(), r.clone()), sk, String),
        _ => set!("LengthSet", LengthSet::<String, u8>::from(sk.clone()), sk, String),
    }
    mon.ev("collections from arrays", 1);
}

/// Keys of an integer-range collection: contiguous, nearly so, or not at all.
fn range_keys<K: Key + PrimInt>(rng: &mut Rng) -> (Vec<K>, &'static str)
where
    i128: AsPrimitive<K>,
{
    let n = match rng.below(6) {
        0 => rng.below(4),
        1..=3 => rng.range(2, 30),
        4 => rng.range(30, 300),
        _ => rng.range(240, 700),
    };
    let bits = K::zero().count_zeros();
    let room = if bits == 8 { 256 } else { usize::MAX };
    let n = n.min(room);
    let start = match rng.below(5) {
        0 => K::min_value(),
        1 => {
            // ends at the largest value
            let mut s = K::max_value();
            for _ in 1..n {
                s = s - K::one();
            }
            s
        }
        2 if K::min_value() < K::zero() && n <= 100 => {
            let mut s = K::zero();
            for _ in 0..rng.below(n + 1) {
                s = s - K::one();
            }
            s
        }
        3 => K::from(rng.below(20)).unwrap(),
        _ => {
            let s: K = (rng.next128() as i128).as_();
            s
        }
    };
    let mut v: Vec<K> = Vec::new();
    let mut k = start;
    for _ in 0..n {
        v.push(k);
        if k == K::max_value() {
            break;
        }
        k = k + K::one();
    }
    let full = n == v.len();
    let n = v.len();
    let how = match rng.below(12) {
        0..=3 => "run",
        4 if n > 0 => {
            let x = v[rng.below(n)];
            v.push(x);
            "run with a repeat"
        }
        5 if n > 2 => {
            let i = rng.range(1, n - 2);
            v.remove(i);
            "run with a gap"
        }
        6 if n > 2 => {
            // a repeat in place of a missing key: the number of keys fits the range
            let i = rng.range(1, n - 2);
            v[i] = if rng.chance(2) { v[i - 1] } else { v[i + 1] };
            "a repeat hides a gap"
        }
        7 if n > 3 => {
            let i = rng.below(n);
            let j = rng.below(n);
            v[i] = v[j];
            "some key replaced by another"
        }
        8 if n > 1 => {
            v[n - 1] = (rng.next128() as i128).as_();
            "an outlier"
        }
        9 if n > 1 && full => {
            // wraps around the type
            v.clear();
            let c = rng.range(1, n - 1);
            let (mut hi, mut lo) = (K::max_value(), K::min_value());
            for i in 0..n {
                if i < c {
                    v.push(hi);
                    hi = hi - K::one();
                } else {
                    v.push(lo);
                    lo = lo + K::one();
                }
            }
            "wraps around"
        }
        10 if n > 1 => {
            let x = v[rng.below(n)];
            v = vec![x; rng.range(2, 4)];
            "one key repeated"
        }
        11 if n > 4 => {
            // several repeats and as many gaps
            for _ in 0..rng.range(1, 3) {
                let i = rng.range(1, n - 2);
                v[i] = v[i + 1];
            }
            "repeats hide gaps"
        }
        _ => "run",
    };
    if rng.chance(2) {
        rng.shuffle(&mut v);
    } else if rng.chance(2) {
        v.reverse();
    }
    (v, how)
}

/// Whether the keys are distinct and without a gap, by arithmetic of our own.
fn is_run<K: PrimInt>(v: &[K]) -> bool {
    let mut s: Vec<K> = v.to_vec();
    s.sort();
    s.windows(2).all(|w| w[0] != K::max_value() && w[0] + K::one() == w[1])
}

fn range_case<K: Key + PrimInt + Hash + Debug + vh::maps::IntSpecs>(rng: &mut Rng, mon: &mut Mon)
where
    i128: AsPrimitive<K>,
{
    let (keys, how) = range_keys::<K>(rng);
    let run = is_run(&keys);
    mon.describe(|| format!("range of {} ({how}): {}", K::NAME, vh::checks::short(&keys)));
    mon.case(&("range", K::NAME, &keys), keys.len() >= 2);
    mon.ev(&format!("range keys: {how}"), 1);
    mon.sample(6, || format!("range of {} ({how}): {}", K::NAME, vh::checks::short(&keys)));
    let e: Vec<(K, u64)> = keys.iter().copied().zip(3..).collect();
    let mut probes = K::probes(rng, &keys, 40);
    probes.truncate(256);
    let f = e.clone();
    let bh = Bh::default();
    let r = caught(|| maps::range_map::<K, u64>(f, rng, bh.clone()));
    match r {
        Ok(m) => {
            vassert!(run, "IntegerRangeMap: accepts keys that aren't a run of distinct integers ({how}): {}", vh::checks::short(&keys));
            whole_map("IntegerRangeMap", &*m, &e, &probes, rng);
            mon.ev("ranges accepted", 1);
        }
        Err(p) => {
            vassert!(!run, "IntegerRangeMap: refuses the run {}: {p}", vh::checks::short(&keys));
            mon.ev("ranges refused", 1);
        }
    }
    let f = keys.clone();
    match caught(|| sets::range_set::<K>(f, rng, bh)) {
        Ok(s) => {
            vassert!(run, "IntegerRangeSet: accepts values that aren't a run of distinct integers ({how}): {}", vh::checks::short(&keys));
            whole_set("IntegerRangeSet", &*s, &keys, &probes, rng);
            mon.ev("ranges accepted", 1);
        }
        Err(p) => {
            vassert!(!run, "IntegerRangeSet: refuses the run {}: {p}", vh::checks::short(&keys));
            mon.ev("ranges refused", 1);
        }
    }
    // longer arrays than the constructors above see
    if let Ok(a) = <[(K, u64); 40]>::try_from(&e[..e.len().min(40)]) {
        let k: Vec<K> = a.iter().map(|x| x.0).collect();
        let b: [K; 40] = k.clone().try_into().unwrap();
        let (m, s) = (caught(|| IntegerRangeMap::from(a)), caught(|| IntegerRangeSet::from(b)));
        if m.is_ok() != is_run(&k) || s.is_ok() != is_run(&k) {
            vfail!("IntegerRangeMap and Set from an array: {} and {} for {k:?}", if m.is_ok() { "accepted" } else { "refused" }, if s.is_ok() { "accepted" } else { "refused" });
        }
    }
}

fn main() {
    run_cases(|i, rng, mon| match i % 8 {
        0 => {
            let mut s = hashed_specs::<u32, u64>();
            s.extend(integer_specs().into_iter().filter(|s| !s.name.contains("Range")));
            s.extend(hashed_specs_wide());
            s.extend(facade_specs());
            s.extend(more_int_maps());
            map_case(rng, mon, &s)
        }
        1 => {
            let mut s = hashed_specs::<String, u64>();
            s.extend(slice_specs());
            s.extend(slice_specs());
            s.extend(length_specs());
            s.extend(facade_specs());
            s.extend(facade_specs());
            s.extend(more_str_maps());
            map_case(rng, mon, &s)
        }
        2 => {
            let mut s = hashed_set_specs::<u32>();
            s.extend(integer_set_specs().into_iter().filter(|s| !s.name.contains("Range")));
            s.extend(hashed_set_specs_wide());
            s.extend(facade_set_specs());
            s.extend(more_int_sets());
            set_case(rng, mon, &s)
        }
        3 => {
            let mut s = hashed_set_specs::<String>();
            s.extend(slice_set_specs());
            s.extend(slice_set_specs());
            s.extend(length_set_specs());
            s.extend(facade_set_specs());
            s.extend(facade_set_specs());
            s.extend(more_str_sets());
            set_case(rng, mon, &s)
        }
        4 => {
            if rng.chance(2) {
                arrays::<255>(rng, mon)
            } else {
                arrays::<256>(rng, mon)
            }
        }
        _ => match rng.below(12) {
            0 => range_case::<u8>(rng, mon),
            1 => range_case::<i8>(rng, mon),
            2 => range_case::<u16>(rng, mon),
            3 => range_case::<i16>(rng, mon),
            4 => range_case::<u32>(rng, mon),
            5 => range_case::<i32>(rng, mon),
            6 => range_case::<u64>(rng, mon),
            7 => range_case::<i64>(rng, mon),
            8 => range_case::<u128>(rng, mon),
            9 => range_case::<i128>(rng, mon),
            10 => range_case::<usize>(rng, mon),
            _ => range_case::<isize>(rng, mon),
        },
    });
}
