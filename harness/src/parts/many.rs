//! C10: get_many_mut is all-or-nothing, ordered and disjoint. Shared by the native and the Miri engine.

use std::collections::HashSet;

use vh::catalog::{MapJob, MkVal};
use vh::checks::{describe_case, entries};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key};
use vh::maps::{MapSpec, MANY};
use vh::rng::Rng;
use vh::run::Mon;
use vh::{vassert, vfail};

/// Formatted only when something is to be reported.
struct Lazy<F>(F);
impl<F: Fn() -> String> std::fmt::Display for Lazy<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&(self.0)())
    }
}

pub struct ManyJob {
    pub small: bool,
}

impl MapJob for ManyJob {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let n = if self.small {
            let most = if rng.chance(8) { 40 } else { 9 };
            rng.below(most)
        } else if rng.chance(4) {
            gen_size(rng, 1200)
        } else {
            rng.below(60)
        };
        let (keys, shape) = K::gen(rng, n);
        let probes = K::probes(rng, &keys, if self.small { 6 } else { 40 });
        let mut fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        rng.shuffle(&mut fitting);
        fitting.truncate(2);
        for spec in fitting {
            let bh = Bh::any(rng);
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
            mon.ev(spec.name, 1);
            let e = entries::<K, V>(&keys, 5);
            let have: HashSet<&K> = keys.iter().collect();
            let absent: Vec<&K> = probes.iter().filter(|p| !have.contains(p)).collect();
            let mut m = (spec.build)(e, rng, bh);
            for round in 0..if self.small { 6 } else { 20 } {
                let size = *rng.pick(&MANY);
                // present keys, then perhaps some fault
                let mut q: Vec<K> = if size <= keys.len() {
                    let mut s = keys.clone();
                    rng.shuffle(&mut s);
                    s.truncate(size);
                    s
                } else if keys.is_empty() {
                    (0..size).filter_map(|_| if probes.is_empty() { None } else { Some(rng.pick(&probes).clone()) }).collect()
                } else {
                    (0..size).map(|_| rng.pick(&keys).clone()).collect()
                };
                match rng.below(6) {
                    0 if !q.is_empty() && !absent.is_empty() => {
                        let i = rng.below(q.len());
                        q[i] = (*rng.pick(&absent)).clone();
                    }
                    1 if q.len() >= 2 => {
                        let i = rng.below(q.len());
                        let j = rng.below(q.len());
                        q[i] = q[j].variant(round as u64);
                    }
                    2 if q.len() >= 3 && !absent.is_empty() => {
                        // a missing key after a repeated one
                        let i = rng.below(q.len());
                        q[i] = (*rng.pick(&absent)).clone();
                        let j = rng.below(q.len());
                        let k = rng.below(q.len());
                        q[j] = q[k].clone();
                    }
                    3 if q.len() >= 2 => {
                        let n = q.len();
                        q[n - 1] = q[0].clone();
                    }
                    _ => {}
                }
                if q.len() != size {
                    continue;
                }
                let distinct = q.iter().collect::<HashSet<_>>().len() == q.len();
                let all = q.iter().all(|k| have.contains(k));
                let before: Vec<(K, V)> = m.d_iter().iter().map(|x| (x.0.clone(), x.1.clone())).collect();
                let addr: Vec<Option<*const V>> = q.iter().map(|k| m.d_get(k).map(|v| v as *const V)).collect();
                let what = Lazy(|| format!("{}: get_many_mut({q:?})", spec.name));
                mon.case(&(spec.name, K::NAME, &keys, &q), q.len() >= 2);
                let refs: Vec<&K> = q.iter().collect();
                let Some(r) = m.d_many(&refs) else { continue };
                let mut written: Vec<(K, V)> = Vec::new();
                match r {
                    None => {
                        vassert!(!(distinct && all), "{what} is None although every key is present once");
                        mon.ev(if all { "refused for a repeated key" } else if distinct { "refused for a missing key" } else { "refused for both" }, 1);
                    }
                    Some(mut vs) => {
                        vassert!(distinct && all, "{what} succeeds although {}", if all { "a key is repeated" } else { "a key is missing" });
                        vassert!(vs.len() == size, "{what} returns {} references", vs.len());
                        if std::mem::size_of::<V>() > 0 {
                            let p: HashSet<*const V> = vs.iter().map(|v| &**v as *const V).collect();
                            vassert!(p.len() == size, "{what} returns references to the same value");
                            for (i, v) in vs.iter().enumerate() {
                                vassert!(addr[i] == Some(&**v as *const V), "{what} returns a reference to another value than that of {:?} at {i}", q[i]);
                            }
                        }
                        // write through all of them, alternating
                        for (i, v) in vs.iter_mut().enumerate() {
                            **v = V::mk(5_000_000 + (round * 100 + i) as u64);
                        }
                        for (i, v) in vs.iter_mut().enumerate().rev() {
                            vassert!(**v == V::mk(5_000_000 + (round * 100 + i) as u64), "{what}: the value written through reference {i} is {v:?}");
                            let w = V::mk(6_000_000 + (round * 100 + i) as u64);
                            **v = w.clone();
                            written.push((q[i].clone(), w));
                        }
                        for i in 1..vs.len() {
                            let (a, b) = vs.split_at_mut(i);
                            std::mem::swap(a[i - 1], b[0]);
                            std::mem::swap(a[i - 1], b[0]);
                        }
                        mon.ev("granted", 1);
                        mon.ev("references written through", size as u64);
                    }
                }
                let after = m.d_iter();
                vassert!(after.len() == before.len(), "{what}: {} entries before, {} after", before.len(), after.len());
                for ((k, v), (k2, v2)) in before.iter().zip(after) {
                    let want = written.iter().find(|w| w.0 == *k).map_or(v, |w| &w.1);
                    if k != k2 || want != v2 {
                        vfail!("{what}: afterwards {k2:?} has {v2:?}, expected {k:?} with {want:?}");
                    }
                }
            }
        }
    }
}
