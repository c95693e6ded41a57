//! C06: the iterator contract at every point of consumption.

use std::collections::HashSet;

use frozen_collections_core::specialized_sets::Set;
use vh::algebra::{element_pairs, int_pair, str_pair, IntSet, PairJob, StrSet, TestSet};
use vh::catalog::{every_map, every_set, MapJob, MkVal, SetJob};
use vh::checks::{describe_case, entries, with_repeats};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key};
use vh::iters::{inexact, It};
use vh::maps::MapSpec;
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::sets::SetSpec;

struct Job;

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let n = if rng.chance(8) { gen_size(rng, 600) } else { rng.below(30) };
        let (keys, shape) = K::gen(rng, n);
        let mut e = entries::<K, V>(&keys, 5);
        let fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        let Some(spec) = (if fitting.is_empty() { None } else { Some(*rng.pick(&fitting)) }) else { return };
        if spec.facade && rng.chance(4) {
            with_repeats(rng, &mut e, 3);
        }
        let bh = Bh::any(rng);
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, K::NAME, V::NAME, shape, &keys), keys.len() >= 2);
        mon.sample(2, || describe_case(spec.name, &keys, shape, &bh));
        mon.ev(spec.name, 1);
        let m = (spec.build)(e, rng, bh);
        m.d_iter_protocol(rng, mon);
    }
}

impl SetJob for Job {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        let n = if rng.chance(8) { gen_size(rng, 600) } else { rng.below(30) };
        let (keys, shape) = T::gen(rng, n);
        let fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        let Some(spec) = (if fitting.is_empty() { None } else { Some(*rng.pick(&fitting)) }) else { return };
        let bh = Bh::any(rng);
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, T::NAME, shape, &keys), keys.len() >= 2);
        mon.sample(2, || describe_case(spec.name, &keys, shape, &bh));
        mon.ev(spec.name, 1);
        let s = (spec.build)(keys, rng, bh);
        s.d_iter_protocol(rng, mon);
    }
}

struct Pair<'a, 'b> {
    rng: &'a mut Rng,
    mon: &'b mut Mon,
    op: usize,
}

impl<T: Key + Ord> PairJob<T> for Pair<'_, '_> {
    fn run<A, B>(&mut self, na: &'static str, a: &A, nb: &'static str, b: &B)
    where
        A: TestSet<T>,
        B: TestSet<T>,
        for<'x> <A as Set<T>>::Iterator<'x>: Clone,
        for<'x> <B as Set<T>>::Iterator<'x>: Clone,
    {
        let w = |op: &str| format!("{na} {op} {nb}");
        let cap = a.len() + b.len();
        match self.op {
            0 => inexact(&|| It::new(a.union(b)), cap, self.rng, self.mon, &w("union")),
            1 => inexact(&|| It::new(a.intersection(b)), cap, self.rng, self.mon, &w("intersection")),
            2 => inexact(&|| It::new(a.difference(b)), cap, self.rng, self.mon, &w("difference")),
            _ => inexact(&|| It::new(a.symmetric_difference(b)), cap, self.rng, self.mon, &w("symmetric_difference")),
        }
        self.mon.ev(["union", "intersection", "difference", "symmetric_difference"][self.op], 1);
    }
}

fn pairs(i: u64, rng: &mut Rng, mon: &mut Mon) {
    macro_rules! go {
        ($t:ty, $s:ident, $pair:ident) => {{
            let (mut a, mut b, how) = element_pairs::<$t>(rng, 60);
            if rng.chance(2) {
                a.truncate(12);
                b.truncate(12);
            }
            mon.describe(|| format!("{how}: {a:?} and {b:?}"));
            let _: (HashSet<$t>, HashSet<$t>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
            mon.case(&("pair", how, &a, &b), !a.is_empty() && !b.is_empty());
            for op in 0..4 {
                let (ha, hb) = (Bh::any(rng), Bh::any(rng));
                let sa = $s::build(a.clone(), rng, ha);
                let sb = $s::build(b.clone(), rng, hb);
                $pair(&sa, &sb, &mut Pair { rng, mon, op });
            }
        }};
    }
    if i % 2 == 0 {
        go!(u32, IntSet, int_pair);
    } else {
        go!(String, StrSet, str_pair);
    }
}

fn main() {
    run_cases(|i, rng, mon| match i % 4 {
        0 => every_map(&Job, rng, mon),
        1 => every_set(&Job, rng, mon),
        _ => pairs(i / 4, rng, mon),
    });
}
