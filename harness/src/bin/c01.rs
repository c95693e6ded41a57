//! C01: FrozenMap lookups against a reference map.

use vh::catalog::{facade_map, MapJob, MkVal};
use vh::checks::{check_map_lookups, describe_case, entries, with_repeats, MapModel};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key, LARGE};
use vh::maps::MapSpec;
use vh::rng::Rng;
use vh::run::{run_cases, Mon};

struct Job;

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let n = gen_size(rng, 3000);
        let (keys, shape) = K::gen(rng, n);
        let bh = Bh::for_size(rng, keys.len());
        let mut e = entries::<K, V>(&keys, rng.below(1000) as u64);
        let repeats = if rng.chance(3) { with_repeats(rng, &mut e, 7) } else { 0 };
        let model = MapModel::of(&e);
        let probes = K::probes(rng, &keys, 400);
        mon.describe(|| describe_case("FrozenMap", &keys, shape, &bh));
        mon.case(&(K::NAME, V::NAME, shape, &keys, repeats), keys.len() >= 2);
        mon.ev(&format!("maps of {} keys", K::NAME), 1);
        mon.ev(&format!("key shape: {shape}"), 1);
        if repeats > 0 {
            mon.ev("inputs with repeated keys", 1);
        }
        mon.max("largest map", keys.len() as f64);
        if keys.len() > LARGE {
            mon.ev("large maps", 1);
        }
        mon.sample(3, || describe_case("FrozenMap", &keys, shape, &bh));
        for round in 0..2 {
            let spec = if round == 0 { &specs[0] } else { rng.pick(specs) };
            let bh = if round == 0 { bh.clone() } else { Bh::for_size(rng, keys.len()) };
            let mut m = (spec.build)(e.clone(), rng, bh);
            check_map_lookups(spec.name, &mut *m, &model, &probes, mon);
            mon.ev("maps built", 1);
            // another order of the same entries; repeats keep their relative order
            if repeats == 0 {
                rng.shuffle(&mut e);
            }
        }
    }
}

fn main() {
    run_cases(|_, rng, mon| facade_map(&Job, rng, mon));
}
