//! C03: specialised maps against a reference map.

use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

use frozen_collections_core::specialized_maps::{CommonMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap};
use vh::catalog::{special_map, MapJob, MkVal};
use vh::checks::{check_map_lookups, describe_case, entries, MapModel};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key, LARGE};
use vh::maps::{slice_range, MapSpec};
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::vassert;

struct Job;

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let n = gen_size(rng, 3000);
        let (keys, shape) = K::gen(rng, n);
        let e = entries::<K, V>(&keys, rng.below(1000) as u64);
        let model = MapModel::of(&e);
        let probes = K::probes(rng, &keys, 300);
        let mut fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        rng.shuffle(&mut fitting);
        fitting.truncate(3);
        for spec in fitting {
            let bh = Bh::for_size(rng, keys.len());
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, K::NAME, V::NAME, shape, &keys), keys.len() >= 2);
            mon.ev(spec.name, 1);
            mon.ev(&format!("keys of type {}", K::NAME), 1);
            mon.max("largest map", keys.len() as f64);
        if keys.len() > LARGE {
            mon.ev("large maps", 1);
        }
            mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
            let mut m = (spec.build)(e.clone(), rng, bh);
            check_map_lookups(spec.name, &mut *m, &model, &probes, mon);
        }
    }
}

/// Looking up by a borrowed form of the key.
fn borrowed(rng: &mut Rng, mon: &mut Mon) {
    let n = gen_size(rng, 240);
    let (keys, shape) = String::gen(rng, n);
    let probes = String::probes(rng, &keys, 200);
    let model: HashMap<String, u64> = keys.iter().cloned().zip(0..).collect();
    let bh = Bh::any(rng);
    let r = slice_range(rng);
    let tag = rng.next();
    let bh = Bh { tag, ..bh };
    mon.describe(|| describe_case("borrowed lookups", &keys, shape, &bh));
    mon.case(&("borrowed", shape, &keys), keys.len() >= 2);
    mon.ev("maps looked up by borrowed keys", 1);
    macro_rules! go {
        ($name:literal, $mk:expr, $build:expr) => {{
            let e: Vec<_> = keys.iter().map($mk).zip(0u64..).collect();
            #[allow(unused_mut)]
            let mut m = $build(e);
            for p in &probes {
                let w = model.get(p);
                vassert!(m.get(p) == w, "{}: get({p:?}) by borrowed key is {:?}, expected {w:?}", $name, m.get(p));
                vassert!(m.contains_key(p) == w.is_some(), "{}: contains_key({p:?}) by borrowed key is {}", $name, m.contains_key(p));
                let kv = m.get_key_value(p);
                vassert!(kv.map(|x| x.1) == w && kv.map_or(true, |x| AsRef::<str>::as_ref(&**x.0) == p.as_str()), "{}: get_key_value({p:?}) by borrowed key is {kv:?}", $name);
                vassert!(m.get_mut(p).as_deref() == w, "{}: get_mut({p:?}) by borrowed key", $name);
            }
        }};
    }
    match rng.below(4) {
        0 => go!("CommonMap<Box<String>>", |k| Box::new(k.clone()), |e| {
            let m = CommonMap::<Box<String>, u64, u8, Bh>::from_vec_with_hasher(e, bh.clone());
            vassert!(*m.hasher() == bh, "CommonMap: hasher() returns {:?}, supplied {bh:?}", m.hasher());
            m
        }),
        1 => go!("ScanningMap<Rc<String>>", |k| Rc::new(k.clone()), ScanningMap::from_vec),
        2 => go!("LengthMap<Arc<String>>", |k| Arc::new(k.clone()), LengthMap::<Arc<String>, u64>::from_vec),
        _ => {
            let e: Vec<(String, u64)> = keys.iter().cloned().zip(0u64..).collect();
            let l = LeftSliceMap::<String, u64, u16, Bh>::from_vec_with_hasher(e.clone(), r.clone(), bh.clone());
            vassert!(*l.hasher() == bh, "LeftSliceMap: hasher() returns {:?}, supplied {bh:?}", l.hasher());
            let m = RightSliceMap::<String, u64, u16, Bh>::from_vec_with_hasher(e, r, bh.clone());
            vassert!(*m.hasher() == bh, "RightSliceMap: hasher() returns {:?}, supplied {bh:?}", m.hasher());
            for p in &probes {
                vassert!(l.get(p) == model.get(p) && m.get(p) == model.get(p), "slice maps: get({p:?}) is {:?} and {:?}", l.get(p), m.get(p));
            }
        }
    }
    mon.ev("keys looked up", probes.len() as u64);
}

fn main() {
    run_cases(|i, rng, mon| if i % 16 == 7 { borrowed(rng, mon) } else { special_map(&Job, rng, mon) });
}
