//! C02: FrozenSet membership against a reference set.

use std::collections::HashSet;

use vh::catalog::{facade_set, SetJob};
use vh::checks::{check_set_lookups, describe_case};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key, LARGE};
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::sets::SetSpec;

struct Job;

impl SetJob for Job {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        let n = gen_size(rng, 3000);
        let (keys, shape) = T::gen(rng, n);
        let bh = Bh::for_size(rng, keys.len());
        let mut e = keys.clone();
        let mut repeats = 0;
        if rng.chance(3) && !keys.is_empty() {
            repeats = rng.range(1, keys.len() + 3);
            for i in 0..repeats {
                e.push(rng.pick(&keys).variant(i as u64 + 1));
            }
            rng.shuffle(&mut e);
        }
        let model: HashSet<T> = e.iter().cloned().collect();
        let instances: HashSet<(T, u64)> = e.iter().map(|k| (k.clone(), k.instance())).collect();
        let probes = T::probes(rng, &keys, 400);
        mon.describe(|| describe_case("FrozenSet", &keys, shape, &bh));
        mon.case(&(T::NAME, shape, &keys, repeats), keys.len() >= 2);
        mon.ev(&format!("sets of {} values", T::NAME), 1);
        mon.ev(&format!("value shape: {shape}"), 1);
        if repeats > 0 {
            mon.ev("inputs with repeated values", 1);
        }
        mon.max("largest set", keys.len() as f64);
        if keys.len() > LARGE {
            mon.ev("large sets", 1);
        }
        mon.sample(3, || describe_case("FrozenSet", &keys, shape, &bh));
        for round in 0..2 {
            let spec = if round == 0 { &specs[0] } else { rng.pick(specs) };
            let bh = if round == 0 { bh.clone() } else { Bh::for_size(rng, keys.len()) };
            let s = (spec.build)(e.clone(), rng, bh);
            check_set_lookups(spec.name, &*s, &model, &instances, &probes, mon);
            mon.ev("sets built", 1);
            rng.shuffle(&mut e);
        }
    }
}

fn main() {
    run_cases(|_, rng, mon| facade_set(&Job, rng, mon));
}
