//! C05: every entry is visited exactly once, in one order.

use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

use vh::catalog::{every_map, every_set, MapJob, MkVal, SetJob};
use vh::checks::{describe_case, entries, short, with_repeats};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key};
use vh::maps::{MapDyn, MapSpec};
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::sets::SetSpec;
use vh::{vassert, vfail};

/// Fails unless the pairs are the entries of the model, each once.
fn same_entries<K: Eq + Hash + Debug, V: PartialEq + Debug>(what: &str, seen: &[(&K, &V)], model: &HashMap<K, V>) {
    let mut keys = HashSet::with_capacity(seen.len());
    for (k, v) in seen {
        vassert!(keys.insert(*k), "{what}: key {k:?} is visited twice");
        match model.get(*k) {
            None => vfail!("{what}: key {k:?} is visited but wasn't supplied"),
            Some(w) => vassert!(w == *v, "{what}: key {k:?} comes with value {v:?}, expected {w:?}"),
        }
    }
    if keys.len() != model.len() {
        let missing: Vec<&K> = model.keys().filter(|k| !keys.contains(k)).collect();
        vfail!("{what}: {} of {} entries are not visited: {}", missing.len(), model.len(), short(&missing));
    }
}

fn views<K: Key, V: MkVal>(what: &str, m: &dyn MapDyn<K, V>, model: &HashMap<K, V>) -> Vec<(K, V)> {
    let it = m.d_iter();
    same_entries(&format!("{what}: iter"), &it, model);
    vassert!(it.len() == m.d_len(), "{what}: {} entries visited, len is {}", it.len(), m.d_len());
    let r = m.d_ref_iter();
    same_entries(&format!("{what}: iteration by reference"), &r, model);
    let again = m.d_iter();
    let same = |a: &[(&K, &V)], b: &[(&K, &V)]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| std::ptr::eq(x.0, y.0) && std::ptr::eq(x.1, y.1));
    vassert!(same(&it, &again), "{what}: iterating twice shows different orders");
    vassert!(same(&it, &r), "{what}: iteration by reference shows another order than iter");
    let keys = m.d_keys();
    vassert!(
        keys.len() == it.len() && keys.iter().zip(&it).all(|(k, e)| std::ptr::eq(*k, e.0)),
        "{what}: keys are {}, iter shows {}", short(&keys), short(&it)
    );
    let values = m.d_values();
    vassert!(
        values.len() == it.len() && values.iter().zip(&it).all(|(v, e)| std::ptr::eq(*v, e.1)),
        "{what}: values are {}, iter shows {}", short(&values), short(&it)
    );
    it.iter().map(|(k, v)| ((*k).clone(), (*v).clone())).collect()
}

struct AsMap<'a, K, V>(&'a [(K, V)]);
impl<K: Debug, V: Debug> Debug for AsMap<'_, K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.0.iter().map(|e| (&e.0, &e.1))).finish()
    }
}

struct Job;

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let n = gen_size(rng, 2500);
        let (keys, shape) = K::gen(rng, n);
        let mut fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        rng.shuffle(&mut fitting);
        fitting.truncate(3);
        for spec in fitting {
            let bh = Bh::any(rng);
            let mut e = entries::<K, V>(&keys, 5);
            let repeats = if spec.facade && rng.chance(3) { with_repeats(rng, &mut e, 3) } else { 0 };
            let mut model: HashMap<K, V> = e.iter().cloned().collect();
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, K::NAME, V::NAME, shape, &keys, repeats), keys.len() >= 2);
            mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
            mon.ev(spec.name, 1);
            let mut m = (spec.build)(e, rng, bh);
            let first = views(spec.name, &*m, &model);
            mon.ev("entries visited", 5 * first.len() as u64);
            // the order survives reads, and printing shows it
            for k in keys.iter().take(20) {
                let _ = m.d_get(k);
            }
            if first.len() <= 300 {
                let (d, a) = m.d_debug();
                let want = AsMap(&first);
                vassert!(d == format!("{want:?}"), "{}: Debug shows {d}, iteration {want:?}", spec.name);
                vassert!(a == format!("{want:#?}"), "{}: alternate Debug shows {a}, iteration {want:?}", spec.name);
                mon.ev("Debug outputs compared", 2);
            }
            let c = m.d_clone();
            let second = views(&format!("clone of {}", spec.name), &*c, &model);
            vassert!(first == second, "{}: a clone shows another order", spec.name);
            // and writes
            for _ in 0..3 {
                if keys.is_empty() {
                    break;
                }
                let k = rng.pick(&keys).clone();
                let v = V::mk(rng.next() % 1_000_000);
                match m.d_get_mut(&k) {
                    Some(x) => *x = v.clone(),
                    None => vfail!("{}: get_mut({k:?}) finds nothing", spec.name),
                }
                model.insert(k, v);
            }
            let third = views(&format!("{} after writes", spec.name), &*m, &model);
            vassert!(
                third.len() == first.len() && third.iter().zip(&first).all(|(a, b)| a.0 == b.0),
                "{}: writing values changed the order", spec.name
            );
            mon.ev("collections whose views agreed", 1);
        }
    }
}

impl SetJob for Job {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        let n = gen_size(rng, 2500);
        let (keys, shape) = T::gen(rng, n);
        let mut fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        rng.shuffle(&mut fitting);
        fitting.truncate(3);
        let model: HashMap<T, ()> = keys.iter().map(|k| (k.clone(), ())).collect();
        for spec in fitting {
            let bh = Bh::any(rng);
            let mut e = keys.clone();
            if spec.facade && rng.chance(3) && !keys.is_empty() {
                for i in 0..rng.range(1, 20) {
                    e.push(rng.pick(&keys).variant(i as u64));
                }
                rng.shuffle(&mut e);
            }
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, T::NAME, shape, &keys), keys.len() >= 2);
            mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
            mon.ev(spec.name, 1);
            let s = (spec.build)(e, rng, bh);
            let it = s.d_iter();
            let pairs = |v: &[&T]| -> Vec<T> { v.iter().map(|x| (*x).clone()).collect() };
            same_entries(&format!("{}: iter", spec.name), &it.iter().map(|k| (*k, &())).collect::<Vec<_>>(), &model);
            vassert!(it.len() == s.d_len(), "{}: {} values visited, len is {}", spec.name, it.len(), s.d_len());
            for (view, name) in [(s.d_iter(), "a second iter"), (s.d_ref_iter(), "iteration by reference"), (s.d_trait_iter(), "Set::iter")] {
                vassert!(
                    view.len() == it.len() && view.iter().zip(&it).all(|(a, b)| std::ptr::eq(*a, *b)),
                    "{}: {name} shows {}, iter {}", spec.name, short(&view), short(&it)
                );
            }
            mon.ev("entries visited", 4 * it.len() as u64);
            let order = pairs(&it);
            let c = s.d_clone();
            vassert!(pairs(&c.d_iter()) == order, "{}: a clone shows another order", spec.name);
            let part = if rng.chance(3) { rng.below(order.len() + 1) } else { usize::MAX };
            if let Some(v) = c.d_consume(part) {
                let want = &order[..part.min(order.len())];
                vassert!(v == want, "{}: consuming it yields {}, iterating {}", spec.name, short(&v), short(want));
                vassert!(pairs(&s.d_iter()) == order, "{}: consuming a clone changed the original", spec.name);
                mon.ev("sets consumed", 1);
                mon.ev("entries visited", v.len() as u64);
            }
            mon.ev("collections whose views agreed", 1);
        }
    }
}

fn main() {
    run_cases(|i, rng, mon| if i % 5 < 3 { every_map(&Job, rng, mon) } else { every_set(&Job, rng, mon) });
}
