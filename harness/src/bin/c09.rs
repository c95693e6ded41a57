//! C09: a write changes the value it names, and nothing else.

use std::collections::{HashMap, HashSet};

use vh::catalog::{every_map, MapJob, MkVal};
use vh::checks::{describe_case, entries, short, with_repeats};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key};
use vh::maps::{MapDyn, MapSpec, MANY};
use vh::rng::Rng;
use vh::run::{caught, run_cases, Mon};
use vh::{vassert, vfail};

struct Job;

/// Compares the whole map with the model, through iteration and lookups.
fn whole<K: Key, V: MkVal>(what: &str, op: &str, m: &dyn MapDyn<K, V>, order: &[K], model: &HashMap<K, V>) {
    let it = m.d_iter();
    vassert!(it.len() == order.len() && m.d_len() == order.len(), "{what}: after {op}, {} entries and len {}, expected {}", it.len(), m.d_len(), order.len());
    for (i, (k, v)) in it.iter().enumerate() {
        vassert!(**k == order[i], "{what}: after {op}, key {i} is {k:?}, was {:?}", order[i]);
        vassert!(**v == model[*k], "{what}: after {op}, {k:?} has {v:?}, expected {:?}", model[*k]);
    }
    for k in order {
        vassert!(m.d_get(k) == Some(&model[k]), "{what}: after {op}, get({k:?}) is {:?}, expected {:?}", m.d_get(k), model[k]);
    }
    let vals = m.d_values();
    vassert!(vals.iter().zip(order).all(|(v, k)| **v == model[k]), "{what}: after {op}, values show {}", short(&vals));
}

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let n = if std::mem::size_of::<K>() == 1 {
            rng.below(257)
        } else if rng.chance(4) {
            gen_size(rng, 1200)
        } else {
            rng.below(60)
        };
        let (keys, shape) = K::gen(rng, n);
        let mut fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        rng.shuffle(&mut fitting);
        fitting.truncate(2);
        let probes = K::probes(rng, &keys, 60);
        for spec in fitting {
            let bh = Bh::any(rng);
            let mut e = entries::<K, V>(&keys, 5);
            if spec.facade && rng.chance(4) {
                with_repeats(rng, &mut e, 3);
            }
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, K::NAME, V::NAME, shape, &keys), keys.len() >= 2);
            mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
            mon.ev(spec.name, 1);
            let mut model: HashMap<K, V> = e.iter().cloned().collect();
            let absent: Vec<K> = probes.iter().filter(|p| !model.contains_key(p)).cloned().collect();
            let mut m = (spec.build)(e, rng, bh);
            let order: Vec<K> = m.d_iter().iter().map(|x| x.0.clone()).collect();
            let frozen = m.d_clone();
            let before = model.clone();
            let every = if keys.len() > 100 { 12 } else { 1 };
            for step in 0..if keys.len() > 100 { 24 } else { 16 } {
                let v = V::mk(1_000_000 + rng.next() % 1_000_000);
                let op;
                match rng.below(6) {
                    0 | 1 if !keys.is_empty() => {
                        let k = rng.pick(&keys).clone();
                        op = format!("get_mut({k:?})");
                        match m.d_get_mut(&k) {
                            Some(x) => {
                                vassert!(*x == model[&k], "{}: {op} shows {x:?}, expected {:?}", spec.name, model[&k]);
                                *x = v.clone();
                            }
                            None => vfail!("{}: {op} finds nothing", spec.name),
                        }
                        model.insert(k, v);
                        mon.ev("writes through get_mut", 1);
                    }
                    2 if !keys.is_empty() => {
                        let k = rng.pick(&keys).clone();
                        op = format!("map[{k:?}] = ...");
                        *m.d_index_mut(k.clone()) = v.clone();
                        model.insert(k, v);
                        mon.ev("writes through indexing", 1);
                    }
                    3 | 4 => {
                        // sometimes with a missing key, sometimes with a repeated one
                        let mut q = keys.clone();
                        rng.shuffle(&mut q);
                        q.truncate(*rng.pick(&MANY));
                        if !q.is_empty() && rng.chance(4) && !absent.is_empty() {
                            let i = rng.below(q.len());
                            q[i] = rng.pick(&absent).clone();
                        }
                        if q.len() >= 2 && rng.chance(4) {
                            let i = rng.below(q.len() - 1);
                            q[i + 1] = q[i].variant(9);
                        }
                        if !MANY.contains(&q.len()) {
                            continue;
                        }
                        op = format!("get_many_mut({q:?})");
                        let ok = q.iter().all(|k| model.contains_key(k)) && q.iter().collect::<HashSet<_>>().len() == q.len();
                        let refs: Vec<&K> = q.iter().collect();
                        match m.d_many(&refs).unwrap() {
                            None => vassert!(!ok, "{}: {op} is None", spec.name),
                            Some(vs) => {
                                vassert!(ok, "{}: {op} succeeds", spec.name);
                                for (i, x) in vs.into_iter().enumerate() {
                                    let w = V::mk(2_000_000 + rng.next() % 1_000_000);
                                    *x = w.clone();
                                    model.insert(q[i].clone(), w);
                                }
                            }
                        }
                        mon.ev(if ok { "writes through get_many_mut" } else { "refused get_many_mut" }, 1);
                    }
                    _ => {
                        if absent.is_empty() {
                            continue;
                        }
                        let k = rng.pick(&absent).clone();
                        op = format!("mutable access to missing {k:?}");
                        vassert!(m.d_get_mut(&k).is_none(), "{}: get_mut of missing {k:?} finds something", spec.name);
                        let r = caught(|| *m.d_index_mut(k.clone()) = v.clone());
                        vassert!(r.is_err(), "{}: indexing mutably by missing {k:?} succeeds", spec.name);
                        mon.ev("accesses to missing keys", 1);
                    }
                }
                if step % every == every - 1 {
                    whole(spec.name, &op, &*m, &order, &model);
                    mon.ev("maps compared whole", 1);
                }
            }
            whole(spec.name, "all writes", &*m, &order, &model);
            if keys.len() <= 300 || rng.chance(4) {
                // every value, in some order
                let mut q = keys.clone();
                rng.shuffle(&mut q);
                for (i, k) in q.into_iter().enumerate() {
                    let w = V::mk(4_000_000 + i as u64);
                    if i % 3 == 0 {
                        *m.d_index_mut(k.clone()) = w.clone();
                    } else {
                        match m.d_get_mut(&k) {
                            Some(x) => *x = w.clone(),
                            None => vfail!("{}: get_mut({k:?}) finds nothing", spec.name),
                        }
                    }
                    model.insert(k, w);
                }
                whole(spec.name, "a write to every value", &*m, &order, &model);
                mon.ev("maps written through and through", 1);
            }
            whole(spec.name, "all writes to another clone", &*frozen, &order, &before);
        }
    }
}

fn main() {
    run_cases(|_, rng, mon| every_map(&Job, rng, mon));
}
