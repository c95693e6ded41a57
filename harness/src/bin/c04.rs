//! C04: specialised sets against a reference set.

use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;

use frozen_collections_core::specialized_sets::{CommonSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet};
use frozen_collections_core::traits::len::Len;
use vh::catalog::{special_set, SetJob};
use vh::checks::{check_set_lookups, describe_case};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key, LARGE};
use vh::maps::slice_range;
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::sets::SetSpec;
use vh::vassert;

struct Job;

impl SetJob for Job {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        let n = gen_size(rng, 3000);
        let (keys, shape) = T::gen(rng, n);
        let model: HashSet<T> = keys.iter().cloned().collect();
        let instances: HashSet<(T, u64)> = keys.iter().map(|k| (k.clone(), k.instance())).collect();
        let probes = T::probes(rng, &keys, 300);
        let mut fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        rng.shuffle(&mut fitting);
        fitting.truncate(3);
        for spec in fitting {
            let bh = Bh::for_size(rng, keys.len());
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, T::NAME, shape, &keys), keys.len() >= 2);
            mon.ev(spec.name, 1);
            mon.ev(&format!("values of type {}", T::NAME), 1);
            mon.max("largest set", keys.len() as f64);
        if keys.len() > LARGE {
            mon.ev("large sets", 1);
        }
            mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
            let s = (spec.build)(keys.clone(), rng, bh);
            check_set_lookups(spec.name, &*s, &model, &instances, &probes, mon);
        }
    }
}

fn borrowed(rng: &mut Rng, mon: &mut Mon) {
    let n = gen_size(rng, 240);
    let (keys, shape) = String::gen(rng, n);
    let probes = String::probes(rng, &keys, 200);
    let model: HashSet<String> = keys.iter().cloned().collect();
    let bh = Bh { tag: rng.next(), ..Bh::any(rng) };
    let r = slice_range(rng);
    mon.describe(|| describe_case("borrowed lookups", &keys, shape, &bh));
    mon.case(&("borrowed", shape, &keys), keys.len() >= 2);
    mon.ev("sets looked up by borrowed values", 1);
    macro_rules! go {
        ($name:literal, $mk:expr, $build:expr) => {{
            let e: Vec<_> = keys.iter().map($mk).collect();
            let m = $build(e);
            vassert!(Len::len(&m) == model.len(), "{}: len is {}", $name, Len::len(&m));
            for p in &probes {
                let w = model.contains(p);
                vassert!(m.contains(p) == w, "{}: contains({p:?}) by borrowed value is {}", $name, m.contains(p));
                let g = m.get(p);
                vassert!(g.is_some() == w && g.map_or(true, |x| AsRef::<str>::as_ref(&**x) == p.as_str()), "{}: get({p:?}) by borrowed value is {g:?}", $name);
            }
        }};
    }
    match rng.below(4) {
        0 => go!("CommonSet<Box<String>>", |k| Box::new(k.clone()), |e| {
            let m = CommonSet::<Box<String>, u8, Bh>::from_vec_with_hasher(e, bh.clone());
            vassert!(*m.hasher() == bh, "CommonSet: hasher() returns {:?}, supplied {bh:?}", m.hasher());
            m
        }),
        1 => go!("ScanningSet<Rc<String>>", |k| Rc::new(k.clone()), ScanningSet::from_vec),
        2 => go!("LengthSet<Arc<String>>", |k| Arc::new(k.clone()), LengthSet::<Arc<String>>::from_vec),
        _ => {
            let l = LeftSliceSet::<String, u16, Bh>::from_vec_with_hasher(keys.clone(), r.clone(), bh.clone());
            vassert!(*l.hasher() == bh, "LeftSliceSet: hasher() returns {:?}, supplied {bh:?}", l.hasher());
            let m = RightSliceSet::<String, u16, Bh>::from_vec_with_hasher(keys.clone(), r, bh.clone());
            vassert!(*m.hasher() == bh, "RightSliceSet: hasher() returns {:?}, supplied {bh:?}", m.hasher());
            for p in &probes {
                vassert!(l.contains(p) == model.contains(p) && m.contains(p) == model.contains(p), "slice sets: contains({p:?}) is {} and {}", l.contains(p), m.contains(p));
            }
        }
    }
    mon.ev("values looked up", probes.len() as u64);
}

fn main() {
    run_cases(|i, rng, mon| if i % 16 == 7 { borrowed(rng, mon) } else { special_set(&Job, rng, mon) });
}
