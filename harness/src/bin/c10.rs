use std::collections::HashSet;

use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::{CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap};
use many::ManyJob;
use vh::catalog::every_map;
use vh::hashers::Bh;
use vh::keys::Key;
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::vassert;

#[path = "../parts/many.rs"]
mod many;

/// Maps that are asked for more values than one usually asks for.
trait Many<K> {
    const WHAT: &'static str;
    fn many<const N: usize>(&mut self, k: [&K; N]) -> Option<[&mut u64; N]>;
    fn value(&self, k: &K) -> Option<u64>;
    fn all(&self) -> u64;
}

macro_rules! many {
    ($name:literal, $t:ty, $k:ty) => {
        impl Many<$k> for $t {
            const WHAT: &'static str = $name;
            fn many<const N: usize>(&mut self, k: [&$k; N]) -> Option<[&mut u64; N]> {
                self.get_many_mut(k)
            }
            fn value(&self, k: &$k) -> Option<u64> {
                self.get(k).copied()
            }
            fn all(&self) -> u64 {
                self.values().fold(0, |a, b| a ^ vh::rng::mix(*b))
            }
        }
    };
}
many!("FrozenMap<u32>", FrozenMap<u32, u64, Bh>, u32);
many!("FrozenMap<String>", FrozenMap<String, u64, Bh>, String);
many!("CommonMap", CommonMap<u32, u64, u16, Bh>, u32);
many!("IntegerMap", IntegerMap<u32, u64, u16>, u32);
many!("IntegerRangeMap", IntegerRangeMap<u32, u64>, u32);
many!("ScanningMap", ScanningMap<u32, u64>, u32);
many!("LeftSliceMap", LeftSliceMap<String, u64, u16, Bh>, String);
many!("RightSliceMap", RightSliceMap<String, u64, u16, Bh>, String);
many!("LengthMap", LengthMap<String, u64, u16>, String);

fn request<K: Key, M: Many<K>, const N: usize>(m: &mut M, keys: &[K], absent: &[K], rng: &mut Rng, mon: &mut Mon) {
    let mut q: Vec<K> = keys.to_vec();
    rng.shuffle(&mut q);
    q.truncate(N);
    if q.len() < N || N == 0 {
        return;
    }
    let fault = rng.below(4);
    if fault & 1 == 1 {
        let (i, j) = (rng.below(N), rng.below(N));
        q[i] = q[j].clone();
    }
    if fault & 2 == 2 && !absent.is_empty() {
        let i = rng.below(N);
        q[i] = rng.pick(absent).clone();
    }
    let have: HashSet<&K> = keys.iter().collect();
    let fine = q.iter().collect::<HashSet<_>>().len() == N && q.iter().all(|k| have.contains(k));
    let before: Vec<Option<u64>> = q.iter().map(|k| m.value(k)).collect();
    let all = m.all();
    mon.case(&(M::WHAT, keys, &q), true);
    mon.ev("large requests", 1);
    let refs: [&K; N] = std::array::from_fn(|i| &q[i]);
    match m.many(refs) {
        None => {
            vassert!(!fine, "{}: get_many_mut of {N} distinct keys of {}, all there, is None", M::WHAT, keys.len());
            vassert!(m.all() == all, "{}: a refused get_many_mut of {N} keys changed a value", M::WHAT);
            mon.ev("large requests refused", 1);
        }
        Some(mut vs) => {
            vassert!(fine, "{}: get_many_mut of {N} keys succeeds although one is missing or repeated", M::WHAT);
            mon.ev("large requests granted", 1);
            let p: HashSet<*const u64> = vs.iter().map(|v| &**v as *const u64).collect();
            vassert!(p.len() == N, "{}: get_many_mut of {N} keys returns references to the same value", M::WHAT);
            for (i, v) in vs.iter_mut().enumerate() {
                vassert!(Some(**v) == before[i], "{}: get_many_mut of {N} keys returns the value of another key at {i}", M::WHAT);
                **v = 1 << 40 | i as u64;
            }
            for (i, v) in vs.iter_mut().enumerate() {
                vassert!(**v == 1 << 40 | i as u64, "{}: value {i} of {N} was overwritten through another reference", M::WHAT);
                **v = before[i].unwrap() + 1;
            }
            for (i, k) in q.iter().enumerate() {
                vassert!(m.value(k) == before[i].map(|v| v + 1), "{}: a value written through get_many_mut of {N} keys isn't found", M::WHAT);
            }
        }
    }
}

fn requests<K: Key, M: Many<K>>(mut m: M, keys: &[K], absent: &[K], rng: &mut Rng, mon: &mut Mon) {
    mon.describe(|| format!("{} of {} keys", M::WHAT, keys.len()));
    for _ in 0..4 {
        macro_rules! one {
            ($($n:literal)*) => {{
                let which = rng.below([$($n),*].len());
                let mut i = 0;
                $( if i == which { request::<K, M, $n>(&mut m, keys, absent, rng, mon); } i += 1; )*
                let _ = i;
            }};
        }
        one!(8 16 17 32 33 63 64 65 100 128 129 200 256 257);
    }
}

fn large(rng: &mut Rng, mon: &mut Mon) {
    let n = rng.range(65, 520);
    let bh = Bh::good(rng);
    let which = rng.below(9);
    if matches!(which, 1 | 6..=8) {
        let mut keys: Vec<String> = match which {
            6 => (0..n).map(|i| format!("{i:04}{}", "x".repeat(i % 5))).collect(),
            7 => (0..n).map(|i| format!("{}{i:04}", "x".repeat(i % 5))).collect(),
            8 => (0..n).map(|i| "x".repeat(i)).collect(),
            _ => (0..n).map(|i| format!("key {i}")).collect(),
        };
        rng.shuffle(&mut keys);
        let absent: Vec<String> = (0..20).map(|i| format!("absent {i}")).filter(|k| !keys.contains(k)).collect();
        let e: Vec<(String, u64)> = keys.iter().cloned().zip(1000..).collect();
        match which {
            1 => requests(FrozenMap::from_vec_with_hasher(e, bh), &keys, &absent, rng, mon),
            6 => requests(LeftSliceMap::<_, _, u16, _>::from_vec_with_hasher(e, 0..4, bh), &keys, &absent, rng, mon),
            7 => requests(RightSliceMap::<_, _, u16, _>::from_vec_with_hasher(e, 0..4, bh), &keys, &absent, rng, mon),
            _ => requests(LengthMap::<_, _, u16>::from_vec(e), &keys, &absent, rng, mon),
        }
    } else {
        let step = if which == 4 || rng.chance(3) { 1 } else { *rng.pick(&[2u32, 3, 64, 128, 1000]) };
        let start = rng.below(1000) as u32;
        let mut keys: Vec<u32> = (0..n as u32).map(|i| start + i * step).collect();
        rng.shuffle(&mut keys);
        let absent = [start + n as u32 * step, start.wrapping_sub(1), u32::MAX];
        let e: Vec<(u32, u64)> = keys.iter().copied().zip(1000..).collect();
        match which {
            0 => requests(FrozenMap::from_vec_with_hasher(e, bh), &keys, &absent, rng, mon),
            2 => requests(CommonMap::<_, _, u16, _>::from_vec_with_hasher(e, bh), &keys, &absent, rng, mon),
            3 => requests(IntegerMap::<_, _, u16>::from_vec(e), &keys, &absent, rng, mon),
            4 => requests(IntegerRangeMap::from_vec(e), &keys, &absent, rng, mon),
            _ => requests(ScanningMap::from_vec(e), &keys, &absent, rng, mon),
        }
    }
}

fn main() {
    let job = ManyJob { small: cfg!(miri) };
    run_cases(|i, rng, mon| {
        if i % 8 == 5 && !cfg!(miri) {
            large(rng, mon);
        } else {
            every_map(&job, rng, mon);
        }
    });
}
